"""An independent recogniser and generator for ABNF grammars.

The recogniser is the textbook "set of end positions" algorithm: for a grammar
without left recursion, ``ends(node, i)`` is the set of all j such that node
matches s[i:j].  It is exact for every context-free grammar (no PEG-style
commitment), and because every terminal is only ever tried in a viable context,
the last position at which a terminal was tried, and the set of octets tried
there, are exactly the position of the first error and the octets that could
have stood there instead.

It shares no code and no algorithm with httpolice.parse (an Earley parser).
"""

import re


class Node:
    __slots__ = ()


class Chars(Node):
    """One octet out of a set (a 256-bit mask)."""
    __slots__ = ('mask', 'list')

    def __init__(self, mask):
        self.mask = mask
        self.list = [c for c in range(256) if mask >> c & 1]

    def ends(self, m, i):
        if i < m.n:
            if self.mask >> m.s[i] & 1:
                return (i + 1,)
            m.tried(i, self.mask)
        else:
            m.tried(i, self.mask)
        return ()

    def gen(self, g, depth):
        return bytes([g.pick_char(self.list)])


class Seq(Node):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    def ends(self, m, i):
        cur = {i}
        for item in self.items:
            nxt = set()
            for j in cur:
                nxt.update(m.ends(item, j))
            if not nxt:
                return ()
            cur = nxt
        return cur

    def gen(self, g, depth):
        return b''.join(g.gen(x, depth) for x in self.items)


class Alt(Node):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items

    def ends(self, m, i):
        r = set()
        for item in self.items:
            r.update(m.ends(item, i))
        return r

    def gen(self, g, depth):
        items = self.items
        if depth > g.max_depth:
            items = sorted(items, key=g.height)[:1]
        return g.gen(g.rng.choice(items), depth)


class Rep(Node):
    __slots__ = ('item', 'lo', 'hi')

    def __init__(self, item, lo, hi):
        self.item, self.lo, self.hi = item, lo, hi

    def ends(self, m, i):
        r = set()
        seen = set()
        cur = {i}
        n = 0
        if self.lo == 0:
            r.add(i)
        while cur and (self.hi is None or n < self.hi):
            nxt = set()
            for j in cur:
                nxt.update(m.ends(self.item, j))
            n += 1
            if n >= self.lo:
                if self.hi is None:
                    nxt -= seen
                    seen |= nxt
                r |= nxt
            cur = nxt
        return r

    def gen(self, g, depth):
        hi = self.hi
        n = self.lo
        if depth <= g.max_depth:
            p = g.p_more if not isinstance(g.node(self.item), Chars) \
                else g.p_more_chars
            while (hi is None or n < hi) and n < self.lo + 12 and \
                    g.rng.random() < p:
                n += 1
        return b''.join(g.gen(self.item, depth) for _ in range(n))


class Ref(Node):
    __slots__ = ('name', 'grammar')

    def __init__(self, name, grammar):
        self.name, self.grammar = name, grammar

    def ends(self, m, i):
        return m.ends(self.grammar.rules[self.name], i)

    def gen(self, g, depth):
        return g.gen(self.grammar.rules[self.name], depth + 1)


class Except(Node):
    """`item`, but not (case-insensitively) any of `words`."""
    __slots__ = ('item', 'words')

    def __init__(self, item, words):
        self.item, self.words = item, frozenset(words)

    def ends(self, m, i):
        return {j for j in m.ends(self.item, i)
                if m.s[i:j].lower() not in self.words}

    def gen(self, g, depth):
        while True:
            r = g.gen(self.item, depth)
            if r.lower() not in self.words:
                return r


class Matcher:

    def __init__(self, s):
        self.s = s
        self.n = len(s)
        self.memo = {}
        self.far = 0
        self.far_mask = 0

    def tried(self, i, mask):
        if i > self.far:
            self.far, self.far_mask = i, mask
        elif i == self.far:
            self.far_mask |= mask

    def ends(self, node, i):
        if type(node) is Chars:
            return node.ends(self, i)
        key = (id(node), i)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = node.ends(self, i)
        return r


class Generator:

    def __init__(self, rng, max_depth=14, p_more=.35, p_more_chars=.6):
        self.rng = rng
        self.max_depth = max_depth
        self.p_more = p_more
        self.p_more_chars = p_more_chars
        self.heights = {}
        self.count = 0
        self.limit = 3000

    def node(self, n):
        while isinstance(n, Ref):
            n = n.grammar.rules[n.name]
        return n

    def height(self, n):
        # A rough minimal derivation height; cycles count as infinite.
        key = id(n)
        if key in self.heights:
            return self.heights[key]
        self.heights[key] = 10 ** 6
        if isinstance(n, Chars):
            h = 0
        elif isinstance(n, Ref):
            h = 1 + self.height(n.grammar.rules[n.name])
        elif isinstance(n, Alt):
            h = 1 + min(self.height(x) for x in n.items)
        elif isinstance(n, Seq):
            h = 1 + max([self.height(x) for x in n.items] or [0])
        elif isinstance(n, Rep):
            h = 1 + (self.height(n.item) if n.lo else 0)
        else:
            h = 1 + self.height(n.item)
        self.heights[key] = h
        return h

    def gen(self, n, depth=0):
        self.count += 1
        if self.count > self.limit:
            depth = 10 ** 6         # finish as soon as possible
        return n.gen(self, depth)

    def pick_char(self, lst):
        if len(lst) > 30 and self.rng.random() < .75:
            good = [c for c in b'abcxyzABZ0159' if c in lst]
            if good:
                return self.rng.choice(good)
        return self.rng.choice(lst)


def lit(s, case=False):
    items = []
    for ch in s.encode('ascii'):
        mask = 1 << ch
        if not case and chr(ch).isalpha():
            mask = 1 << ord(chr(ch).lower()) | 1 << ord(chr(ch).upper())
        items.append(Chars(mask))
    return items[0] if len(items) == 1 else Seq(items)


TOKEN = re.compile(r'''
    (?P<ws>\s+|;[^\n]*) |
    (?P<name>[A-Za-z][A-Za-z0-9-]*) |
    (?P<cs>%s"[^"]*") | (?P<str>"[^"]*") |
    (?P<hex>%x[0-9A-Fa-f]+(?:-[0-9A-Fa-f]+|(?:\.[0-9A-Fa-f]+)+)?) |
    (?P<list>[0-9]*\#) | (?P<rep>[0-9]*\*[0-9]*|[0-9]+) |
    (?P<exc>!\() | (?P<punct>[()\[\]/=])
''', re.X)


class Grammar:

    def __init__(self, text):
        self.rules = {}
        # A rule starts at the beginning of a line.
        chunks = re.split(r'\n(?=[A-Za-z])', '\n' + text)
        for chunk in chunks:
            if not re.match(r'[A-Za-z][A-Za-z0-9-]*\s*=', chunk):
                continue
            name, body = chunk.split('=', 1)
            name = name.strip().lower()
            assert name not in self.rules, name
            self.rules[name] = self._parse(body)
        for name in list(self.rules):
            self.rules[name] = self._simplify(self.rules[name], ())

    # -- parsing ABNF text

    def _parse(self, body):
        toks = []
        pos = 0
        while pos < len(body):
            mm = TOKEN.match(body, pos)
            assert mm, body[pos:pos + 40]
            pos = mm.end()
            if mm.lastgroup != 'ws':
                toks.append((mm.lastgroup, mm.group()))
        self.toks = toks
        node = self._alt()
        assert not self.toks, (body, self.toks)
        return node

    def _peek(self):
        return self.toks[0] if self.toks else (None, None)

    def _alt(self):
        items = [self._seq()]
        while self._peek()[1] == '/':
            self.toks.pop(0)
            items.append(self._seq())
        return items[0] if len(items) == 1 else Alt(items)

    def _seq(self):
        items = []
        while True:
            kind, val = self._peek()
            if kind is None or val in [')', ']', '/']:
                break
            items.append(self._rep())
        return items[0] if len(items) == 1 else Seq(items)

    def _rep(self):
        kind, val = self._peek()
        if kind == 'rep':
            self.toks.pop(0)
            if '*' in val:
                lo, hi = val.split('*')
                lo = int(lo or 0)
                hi = int(hi) if hi else None
            else:
                lo = hi = int(val)
            return Rep(self._elem(), lo, hi)
        if kind == 'list':
            self.toks.pop(0)
            elem = self._elem()
            ows = Ref('ows', self)
            comma = lit(',')
            # RFC 7230 section 7 (with errata 5257), what recipients accept
            if val == '1#':
                return Seq([Rep(Seq([comma, ows]), 0, None), elem,
                            Rep(Seq([ows, comma,
                                     Rep(Seq([ows, elem]), 0, 1)]), 0, None)])
            assert val == '#'
            opt = Rep(Seq([elem, ows]), 0, 1)
            return Seq([opt, Rep(Seq([comma, ows, opt]), 0, None)])
        return self._elem()

    def _elem(self):
        kind, val = self.toks.pop(0)
        if kind == 'name':
            node = Ref(val.lower(), self)
            if self._peek()[0] == 'exc':
                self.toks.pop(0)
                words = []
                while True:
                    k, v = self.toks.pop(0)
                    if k == 'str':
                        words.append(v[1:-1].lower().encode())
                    elif v == ')':
                        break
                    else:
                        assert v == '/'
                return Except(node, words)
            return node
        if kind == 'str':
            return lit(val[1:-1]) if val != '""' else Seq([])
        if kind == 'cs':
            return lit(val[3:-1], case=True)
        if kind == 'hex':
            val = val[2:]
            if '-' in val:
                a, b = (int(x, 16) for x in val.split('-'))
                return Chars(sum(1 << c for c in range(a, b + 1)))
            xs = [Chars(1 << int(x, 16)) for x in val.split('.')]
            return xs[0] if len(xs) == 1 else Seq(xs)
        if val == '(':
            node = self._alt()
            assert self.toks.pop(0)[1] == ')'
            return node
        if val == '[':
            node = self._alt()
            assert self.toks.pop(0)[1] == ']'
            return Rep(node, 0, 1)
        raise AssertionError((kind, val))

    # -- merging alternatives of single octets, for speed

    def _simplify(self, node, stack):
        if isinstance(node, Ref):
            if node.name in stack:
                return node
            target = self._simplify(self.rules[node.name],
                                    stack + (node.name,))
            return target if isinstance(target, Chars) else node
        if isinstance(node, Alt):
            items = [self._simplify(x, stack) for x in node.items]
            mask = 0
            rest = []
            for x in items:
                if isinstance(x, Chars):
                    mask |= x.mask
                else:
                    rest.append(x)
            if not rest:
                return Chars(mask)
            if mask:
                rest.append(Chars(mask))
            return Alt(rest) if len(rest) > 1 else rest[0]
        if isinstance(node, Seq):
            return Seq([self._simplify(x, stack) for x in node.items])
        if isinstance(node, Rep):
            return Rep(self._simplify(node.item, stack), node.lo, node.hi)
        if isinstance(node, Except):
            return Except(self._simplify(node.item, stack), node.words)
        return node

    # -- the interface

    def rule(self, name):
        return self.rules[name.lower()]

    def matches(self, name, s):
        if isinstance(s, str):
            s = s.encode('iso-8859-1')
        m = Matcher(s)
        return len(s) in m.ends(self.rule(name), 0)

    def diagnose(self, name, s):
        """(ok, position of the error, octets possible at that position)."""
        m = Matcher(s)
        ok = len(s) in m.ends(self.rule(name), 0)
        if ok:
            return True, None, None
        ends = m.ends(self.rule(name), 0)
        pos = max([m.far] + list(ends))
        return False, pos, m.far_mask if m.far == pos else 0

    def gen(self, name, rng, **kwargs):
        return Generator(rng, **kwargs).gen(self.rule(name))
