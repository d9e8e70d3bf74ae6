"""Reads a text report back, strictly."""

import re
import unicodedata

MARK = '------------'
NOTICE = re.compile(r'([ECD]) ([1-9][0-9]{3}) (.*)')
SEVERITY = {'E': 'error', 'C': 'comment', 'D': 'debug'}


class Malformed(Exception):
    pass


def lines_of(data):
    try:
        s = data.decode('utf-8')
    except UnicodeDecodeError as e:
        raise Malformed('not UTF-8: %s' % e)
    if not s:
        return []
    if not s.endswith('\n'):
        raise Malformed('last line is not ended')
    lines = s[:-1].split('\n')
    for line in lines:
        for c in line:
            if unicodedata.category(c) in ('Cc', 'Cs'):
                raise Malformed('control character %r in line %r' % (c, line))
    return lines


def read(data):
    """[{'marker', 'notices', 'responses': [{'marker', 'notices'}]}]

    What follows the last response marker of an exchange (its own notices and
    then those of the exchange as a whole) is all listed under that response.
    """
    out = []
    here = None
    for line in lines_of(data):
        if line.startswith(MARK):
            rest = line[len(MARK):]
            if rest.startswith(' response: '):
                if not out:
                    raise Malformed('response outside an exchange: %r' % line)
                here = {'marker': line, 'notices': []}
                out[-1]['responses'].append(here)
            elif rest == '' or rest == ' unknown request' or \
                    rest.startswith(' request: '):
                here = {'marker': line, 'notices': [], 'responses': []}
                out.append(here)
            else:
                raise Malformed('unknown marker %r' % line)
            continue
        m = NOTICE.fullmatch(line)
        if not m:
            raise Malformed('unknown line %r' % line)
        if here is None:
            raise Malformed('notice before any marker: %r' % line)
        here['notices'].append((m[1], int(m[2]), m[3]))
    return out


def all_notices(exchanges):
    return [n for e in exchanges
            for n in e['notices'] + [n for r in e['responses']
                                     for n in r['notices']]]


def plain(s):
    """Typography does not matter, nor does the amount of white space."""
    for a, b in [('\u201c', '"'), ('\u201d', '"'), ('\u2018', "'"),
                 ('\u2019', "'"), ('\u2014', '--'), ('\u2013', '-'),
                 ('\u2212', '-'), ('\xa0', ' ')]:
        s = s.replace(a, b)
    return ' '.join(s.split())
