"""C22: variation that means nothing does not change the result."""

import copy
import os
import re
import subprocess
import sys

from vp import gen, har, hp, payload, vary, wire
from vp.ref import values

PID = 'C22'
RULE = ('An exchange is checked in two forms that mean the same, and the same '
        'notices must be found on every message. Forms differ in any '
        'combination of: letter case of header names (headers and trailers), '
        'letter case of values where vp/ref/values.py reads the same from '
        'both, order of differently named headers, an extra unknown header, '
        'values as characters or bytes, no trailers or an empty list of them '
        '(shard api); case, order and white space around values on the wire, '
        'case of hex digits, leading zeroes and extensions of chunks (shard '
        'wire). Batches of exchanges and capture files are also processed in '
        'separate processes under different time zones, locales, encodings, '
        'hash seeds and directories: numbers and both reports must be '
        'identical (shard env). Non-trivial: something is reported.')
ASSUMPTIONS = ['vp/ref/values.py knows what is case-insensitive',
               'sets of notice numbers per message are compared, except for '
               '1032 (on the place of Host) when the order is changed',
               'only locales C, POSIX and C.utf8 are installed']


def plan(tier):
    k = 1 if tier == 'quick' else 12
    return [('api', 8000 * k, 250), ('case', 6000 * k, 250),
            ('wire', 3000 * k, 200), ('env', 24 * k, 2)]


NUMBERS = re.compile(rb'data-ref-(?:id|to)="[0-9 ]*"')
KNOWN = [n for n, x in values.HEADERS.items()]


def REQUIRE(tier):
    r = {'api': 6000, 'name recased': 3000, 'value recased': 3000,
         'reordered': 2500, 'extra': 2000, 'as str': 2000, 'as str, reports': 300, 'wire': 2000,
         'wire, with body': 300, 'wire, chunked': 150, 'env runs': 60,
         'env exchanges': 400, 'env notices': 2000}
    for n in RECASED:
        r['recased value of ' + n] = 10
    for n in KNOWN:
        if n in {k.lower() for k in gen.HEADERS}:
            r['recased name of ' + n] = 5
    return r


RECASED = [
    'accept', 'accept-charset', 'accept-encoding', 'accept-language',
    'accept-ranges', 'alt-svc', 'authorization', 'cache-control', 'connection',
    'content-disposition', 'content-encoding', 'content-type', 'expect',
    'forwarded', 'link', 'prefer', 'preference-applied', 'range', 'te',
    'trailer', 'transfer-encoding', 'vary', 'www-authenticate',
    'proxy-authenticate', 'proxy-authorization', 'strict-transport-security',
    'content-range', 'accept-patch', 'accept-post',
    'pragma']


def flip(s, rng, p):
    return ''.join(c.swapcase() if c.isascii() and rng.random() < p else c
                   for c in s)


def recase_value(name, raw, rng):
    """The same value in other letters, or None."""
    n = name.lower()
    a = values.parse(n, raw)
    if a is None:
        return None
    s = raw.decode('latin-1')
    tries = [s.upper() if s.isascii() else s, s.lower() if s.isascii() else s,
             flip(s, rng, .5), flip(s, rng, .1)]
    words = [m.span() for m in values.TOKEN.finditer(s)]
    for _ in range(4):
        if words:
            i, j = rng.choice(words)
            w = rng.choice([s[i:j].swapcase(), s[i:j].upper(),
                            s[i:j].title(), flip(s[i:j], rng, .5)])
            tries.append(s[:i] + w + s[j:])
    rng.shuffle(tries)
    for t in tries:
        if t == s:
            continue
        try:
            v = t.encode('latin-1')
        except UnicodeEncodeError:
            continue
        b = values.parse(n, v)
        if b is not None and repr(b.value) == repr(a.value) and \
                b.must == a.must:
            return v
    return None


def other_case(name, rng):
    return rng.choice([name.upper(), name.lower(), name.title(),
                       name.swapcase(), flip(name, rng, .5)])


def recase(spec, rng, rec, p=.6):
    """In place. -> whether anything changed"""
    done = False
    for m in vary.messages(spec):
        for key in ('headers', 'trailers'):
            out = []
            for n, v in m.get(key) or []:
                if rng.random() < p:
                    w = recase_value(n, v, rng)
                    if w is not None:
                        rec.count('value recased')
                        rec.count('recased value of ' + n.lower())
                        v, done = w, True
                if rng.random() < p:
                    k = other_case(n, rng)
                    if k != n:
                        rec.count('name recased')
                        rec.count('recased name of ' + n.lower(),
                                  n.lower() in values.HEADERS)
                        n, done = k, True
                out.append((n, v))
            if m.get(key):
                m[key] = out
    return done


def reorder(spec, rng):
    """Move headers, but not those of the same name past each other."""
    done = False
    for m in vary.messages(spec):
        for key in ('headers', 'trailers'):
            hs = m.get(key)
            if not hs or len(hs) < 2:
                continue
            names = [n.lower() for n, _ in hs]
            queues = {}
            for h in hs:
                queues.setdefault(h[0].lower(), []).append(h)
            rng.shuffle(names)
            new = [queues[n].pop(0) for n in names]
            done |= new != hs
            m[key] = new
    return done


EXTRA = ['Foo-Bar', 'Quux', 'Frobnication-Level', 'Zap', 'A', 'Sec-Foo']
EXTRA_VALUES = [b'baz', b'1', b'"quoted, string"', b'a=b; c="d"', b'a, b',
                b'', b'no-cache', b'*', b'chunked', b'Thu, 01 Jan 1970 '
                b'00:00:00 GMT', b'http://example.com/', b'caf\xe9']


def extra(spec, rng):
    done = False
    for m in vary.messages(spec):
        text = b'\n'.join(n.encode('latin-1', 'replace') + b':' + v for n, v in
                          m['headers'] + (m.get('trailers') or [])).lower()
        ok = [n for n in EXTRA if n.lower().encode() not in text or
              n == 'A' and not any(h.lower() == 'a' for h, _ in m['headers'])
              and b'connection' not in text and b'vary' not in text and
              b'trailer' not in text]
        if ok and rng.random() < .7:
            # (not before Host)
            m['headers'].insert(rng.randint(min(1, len(m['headers'])),
                                            len(m['headers'])),
                                (rng.choice(ok), rng.choice(EXTRA_VALUES)))
            done = True
    return done


def as_str(spec, rng):
    for m in vary.messages(spec):
        for key in ('headers', 'trailers'):
            if m.get(key):
                m[key] = [(n, v.decode('latin-1') if rng.random() < .6 else v)
                          for n, v in m[key]]
        if not m.get('trailers'):
            m['trailers'] = rng.choice([None, []])


def obs_text(spec, rng):
    """In place: octets beyond ASCII in a few values."""
    for m in vary.messages(spec):
        for hs in (m['headers'], m.get('trailers') or []):
            for k, (n, v) in enumerate(hs):
                if v and rng.random() < .3:
                    at = rng.choice([rng.randint(0, len(v)),
                                     v.find(b'"') + 1 or len(v)])
                    hs[k] = (n, v[:at] + bytes([rng.randint(0x80, 0xff)]) + v[at:])


def reports(spec):
    e = hp.check(copy.deepcopy(spec))
    return [hp.report('text', [e]), hp.report('html', [e])]


def differ(ignore):
    def judge(a, b):
        for k, (x, y) in enumerate(zip(a, b)):
            if x - ignore != y - ignore:
                return [k, sorted(x - y), sorted(y - x)]
        return None if len(a) == len(b) else 'number of messages'
    return judge


TYPES = ['application/json', 'text/json', 'application/problem+json',
         'application/xml', 'text/xml', 'image/svg+xml', 'multipart/form-data',
         'multipart/byteranges', 'multipart/mixed', 'text/plain', 'text/html',
         'application/x-www-form-urlencoded', 'application/octet-stream',
         'application/json-patch+json', 'application/merge-patch+json']


def with_payload(rng):
    """An exchange where the body and what is said about it matter."""
    t = rng.choice(TYPES)
    charset = rng.choice(['', '', '', '; charset=utf-8', '; charset=UTF-16',
                          '; charset="iso-8859-1"', '; charset=nope'])
    if rng.random() < .8:
        want = t.split('/')[-1].split('+')[-1] if rng.random() < .8 else 'any'
    else:
        want = 'any'
    if t.startswith('multipart/') and want != 'any':
        b = rng.choice(['foo', 'a b', 'Xx'])
        t += '; boundary="%s"' % b
        body = rng.choice([payload.multipart, lambda b, rng:
                           payload.odd_multipart(b, rng)])(b, rng)
    else:
        body = rng.choice({
            'json': [payload.json_value, payload.odd_json],
            'xml': [lambda r: payload.xml(r, 'ab\xe9'),
                    lambda r: payload.odd_xml(r, 'ab')],
            'x-www-form-urlencoded': [payload.form]}.get(
                want, [payload.json_value, payload.odd_json, payload.form,
                       lambda r: payload.xml(r, 'ab')]))(rng)
    if isinstance(body, str):
        body = body.encode('utf-8', 'replace')
    hs = [('Content-Type', (t + charset).encode())]
    codings = rng.choice([[], [], ['gzip'], ['deflate'], ['br'], ['gzip', 'br'],
                          ['x-gzip'], ['compress'], ['identity']])
    for c in codings:
        body = payload.apply(c, body, rng) if c in (
            'gzip', 'deflate', 'br', 'x-gzip') else body
    if codings:
        hs.append(('Content-Encoding', ', '.join(codings).encode()))
    if rng.random() < .3:
        hs.append(('Content-Length', b'%d' % len(body)))
    if rng.random() < .2:
        hs.append(('Transfer-Encoding', b'chunked'))
    rng.shuffle(hs)
    hs.insert(0, ('Host', b'example.com'))
    if rng.random() < .5:
        return {'req': hp.req(rng.choice(['POST', 'PUT', 'PATCH', 'GET']), '/',
                              hs, body), 'resps': [hp.resp(200)]}
    return {'req': hp.req('GET', '/', hs[:1]),
            'resps': [hp.resp(rng.choice([200, 200, 206, 404]), hs[1:], body)]}


def api(rng, rec, only=None):
    a = with_payload(rng) if rng.random() < .2 else vary.base(rng)
    if rng.random() < .3:
        obs_text(a, rng)
    b = copy.deepcopy(a)
    kinds = [only] if only else rng.sample(
        ['case', 'order', 'extra', 'str'], rng.choice([1, 1, 2, 3]))
    done = set()
    if 'case' in kinds and recase(b, rng, rec, rng.choice([.3, .7, 1])):
        done.add('case')
    if 'order' in kinds and reorder(b, rng):
        done.add('order')
        rec.count('reordered')
    if 'extra' in kinds and extra(b, rng):
        done.add('extra')
        rec.count('extra')
    if 'str' in kinds:
        as_str(b, rng)
        done.add('str')
        rec.count('as str')
    if not done:
        return
    rec.count('api')
    ignore = {1032} if 'order' in done else set()
    first = vary.seen(copy.deepcopy(a))
    wrong = vary.compare(a, b, differ(ignore))
    if wrong:
        rec.fail('api:%s:%s' % ('+'.join(sorted(done)), wrong),
                 'in two forms of the same exchange, message %s' % (wrong,),
                 {'a': a, 'b': b})
    if done == {'str'}:
        rec.count('as str, reports', 1)
        (t1, h1), (t2, h2) = reports(a), reports(b)
        if t1 != t2 or NUMBERS.sub(b'', h1) != NUMBERS.sub(b'', h2):
            rec.fail('str:report', 'the reports differ between values as bytes '
                     'and as characters', {'a': a, 'b': b})
    if any(first):
        rec.nontrivial(('api', tuple(sorted(done)), repr(first)))
    rec.sample({'what': sorted(done), 'notices': [sorted(x) for x in first]})


# -- on the wire

def on_wire(m, line, rng, form):
    """The bytes of a message; `form` has what must be the same in both."""
    hs = [(n, v) for n, v in m['headers']
          if n.lower() not in ('content-length', 'transfer-encoding')]
    body = m['body'] or b''
    if form['how'] == 'length':
        hs.append(('Content-Length', b'%d' % len(body)))
    elif form['how'] == 'chunked':
        hs.append((wire.gen.recase('Transfer-Encoding', rng) if
                   form['vary'] else 'Transfer-Encoding',
                   rng.choice([b'chunked', b'Chunked', b'CHUNKED'])
                   if form['vary'] else b'chunked'))
    out = [line.encode('latin-1', 'replace'), b'\r\n']
    for n, v in hs:
        lead, tail = (wire.ows(rng), rng.choice([b'', b' ', b'\t', b' \t ']))\
            if form['vary'] else (b' ', b'')
        out += [n.encode('latin-1', 'replace'), b':', lead, v, tail, b'\r\n']
    head = b''.join(out) + b'\r\n'
    if form['how'] == 'length':
        return head + body
    if form['how'] == 'chunked':
        if form['vary']:
            return head + wire.chunked(body, [], rng)
        return head + (b'%x\r\n' % len(body) + body + b'\r\n' if body
                       else b'') + b'0\r\n\r\n'
    return head


def streams(spec, rng, forms, variant):
    q = spec['req']
    inb = on_wire(q, '%s %s %s' % (q['method'], q['target'], q['version']),
                  rng, dict(forms[0], vary=variant)) if q else None
    outb = b''
    for r, f in zip(spec['resps'], forms[1:]):
        outb += on_wire(r, '%s %s %s' % (r['version'], r['status'],
                                         r['reason']), rng,
                        dict(f, vary=variant))
    return inb, outb


def wire_seen(inb, outb):
    import httpolice
    from vp import hp
    out = []
    for exch in wire.read(inb, outb):
        httpolice.check_exchange(exch)
        out += [set(hp.ids(m)) for m in
                ([exch.request] if exch.request else []) + exch.responses +
                [exch]]
    return out


def on_the_wire(rng, rec):
    a = vary.base(rng)
    for m in vary.messages(a):
        m['trailers'] = None
        m['version'] = m['version'] if m['version'] in ('HTTP/1.0',
                                                        'HTTP/1.1') \
            else 'HTTP/1.1'
        m['headers'] = [(n, v) for n, v in m['headers']
                        if not {0, 10, 13} & set(v)]
    forms = []
    for m in vary.messages(a):
        how = rng.choice(['length', 'length', 'chunked'])
        if m is a['req']:
            if not m['body'] and rng.random() < .8:
                how = 'none'
        elif m['status'] < 200 or m['status'] in (204, 304):
            how = 'none'
        if a['req'] and a['req']['method'] == 'HEAD' and m is not a['req']:
            how = 'none'
        forms.append({'how': how})
    if not a['req']:
        forms.insert(0, None)
    b = copy.deepcopy(a)
    recase(b, rng, rec, rng.choice([0, .3, .7]))
    ignore = set()
    if rng.random() < .3:
        reorder(b, rng)
        ignore = {1032}
    first = wire_seen(*streams(a, rng, forms, False))
    other = streams(b, rng, forms, True)
    for _ in range(3):
        second = wire_seen(*other)
        wrong = differ(ignore)(first, second)
        if not wrong:
            break
        first = wire_seen(*streams(a, rng, forms, False))
    if wrong:
        rec.fail('wire:%s' % (wrong,), 'in two forms of the same exchange on '
                 'the wire, message %s' % (wrong,),
                 {'a': a, 'streams': other})
    rec.count('wire')
    rec.count('wire, with body', any(m['body'] for m in vary.messages(a)))
    rec.count('wire, chunked', any(f and f['how'] == 'chunked'
                                   for f in forms))
    if any(first):
        rec.nontrivial(('wire', repr(first)))


# -- in other environments

SCRIPT = '''
import ast, io, sys
from vp import hp
specs = ast.literal_eval(open(sys.argv[1], encoding='utf-8').read())
exchs = []
out = sys.stdout.buffer
for spec in specs:
    e = hp.check(spec)
    out.write(ascii(hp.all_ids(e)).encode() + b'\\n')
    exchs.append(e)
for kind in ('text', 'html'):
    out.write(hp.report(kind, exchs))
'''
BASE = {'PATH': os.environ.get('PATH', ''), 'LC_ALL': 'C.utf8', 'TZ': 'UTC',
        'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1'}


def environment(rng):
    env = dict(BASE)
    env['TZ'] = rng.choice(['America/New_York', 'Asia/Kolkata', 'EST5EDT',
                            'XXX-13', 'XXX+11:30', 'Pacific/Apia', ''])
    env['PYTHONHASHSEED'] = str(rng.randrange(1, 1000))
    env.pop('LC_ALL')
    env.update(rng.choice([
        {'LC_ALL': 'C'}, {'LC_ALL': 'POSIX'}, {'LANG': 'C.utf8'}, {},
        {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
        {'LC_ALL': 'C', 'PYTHONIOENCODING': 'ascii', 'PYTHONUTF8': '0',
         'PYTHONCOERCECLOCALE': '0'},
        {'LC_ALL': 'xx_YY', 'PYTHONIOENCODING': 'utf-16'},
        {'PYTHONIOENCODING': 'latin-1', 'LC_ALL': 'C.utf8'}]))
    if rng.random() < .3:
        env['HOME'] = '/nonexistent'
    if rng.random() < .3:
        env['COLUMNS'] = rng.choice(['10', '200'])
    if rng.random() < .3:
        env['NO_COLOR'] = env['TERM'] = 'dumb'
    return env


def run(argv, env, cwd):
    env = dict(env, PYTHONPATH='%s:%s' % (
        os.environ.get('VP_REPO', '/repo'),
        os.path.dirname(os.path.dirname(os.path.dirname(
            os.path.abspath(__file__))))),
        VP_REPO=os.environ.get('VP_REPO', '/repo'))
    p = subprocess.run([sys.executable] + argv, env=env, cwd=cwd,
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=100)
    # (The numbers that link elements of an HTML report have no meaning.)
    return (p.returncode, re.sub(rb' data-ref-(id|to)="\d+"', b'', p.stdout),
            p.stderr)


def env_case(rng, rec):
    with wire.Tmp() as tmp:
        if rng.random() < .6:
            specs = [vary.base(rng) for _ in range(40)]
            for s in specs:
                for m in vary.messages(s):
                    m.pop('_', None)
            path = tmp.put('specs', repr(specs).encode('utf-8'))
            script = tmp.put('script.py', SCRIPT.encode())
            argv = [script, path]
            what, n = 'specs', len(specs)
        else:
            kind = rng.choice(['text', 'html'])
            fmt = rng.choice(['har', 'har', 'combined'])
            paths = []
            for k in range(4):
                if fmt == 'har':
                    data = har.dump(har.har(rng)[0], rng)
                else:
                    inb, outb = wire.hostile_pair(rng) if rng.random() < .5 \
                        else wire.wf_connection(rng)[:2]
                    if wire.COMBINED_OUT in inb:
                        continue
                    data = b'x\r\n' + wire.COMBINED_IN + inb + \
                        wire.COMBINED_OUT + outb
                paths.append(tmp.put('%d.x' % k, data))
            # (relative names, so that remarks do not depend on the run)
            argv = ['-m', 'httpolice.cli', '-i', fmt, '-o', kind] + \
                ['--'] + [os.path.basename(p) for p in paths]
            what, n = fmt, len(paths)
        cwd = tmp.dir
        base = run(argv, BASE, cwd)
        if base[0] not in (0, 1) or b'Traceback' in base[2]:
            if what == 'specs':
                raise AssertionError(base[2].decode()[-2000:])
            rec.fail('env:crash', 'cannot process %s' % what, base[2][-2000:])
            return
        rec.count('env exchanges', n)
        rec.count('env notices', base[1].count(b' 1') if what == 'specs'
                  else 0)
        for _ in range(3):
            env = environment(rng)
            for k in range(3):
                other = run(argv, env, cwd)
                if other[:2] == base[:2]:
                    break
                base = run(argv, BASE, cwd)      # the clock
            rec.count('env runs')
            if other[:2] != base[:2]:
                a, b = base[1], other[1]
                at = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y),
                          min(len(a), len(b)))
                rec.fail('env:' + what, 'the result depends on the '
                         'environment', {
                             'env': env, 'status': [base[0], other[0]],
                             'at': [repr(a[max(at - 80, 0):at + 80]),
                                    repr(b[max(at - 80, 0):at + 80])],
                             'stderr': other[2].decode('latin-1')[-1500:],
                             'argv': argv,
                             'files': {f: repr(open(os.path.join(cwd, f),
                                                    'rb').read())
                                       for f in os.listdir(cwd)}})
        rec.nontrivial(('env', what, base[1][:200]))


def case(shard, i, rng, rec):
    if shard == 'api':
        api(rng, rec)
    elif shard == 'case':
        api(rng, rec, 'case')
    elif shard == 'wire':
        on_the_wire(rng, rec)
    else:
        env_case(rng, rec)
