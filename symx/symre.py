"""Regular expressions over symbolic text: a backtracking matcher whose character tests are decided by the solver."""
import re
try:
    from re import _parser as sre_parse, _constants as C
except ImportError:             # older interpreters
    import sre_parse
    import sre_constants as C
import z3
from .core import Unsupported
from .values import E, SymStr, NumAtom, items_of, mkstr, zor, znot

_CAT = {}


def _ranges(pred):
    out, start = [], None
    for c in range(0x110000):
        if pred(chr(c)):
            if start is None:
                start = c
        elif start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, 0x10ffff))
    return out


def category(cat, asc):
    key = (cat, asc)
    if key not in _CAT:
        name = str(cat)
        if 'DIGIT' in name:
            p = re.compile(r'\d', re.A if asc else 0)
        elif 'SPACE' in name:
            p = re.compile(r'\s', re.A if asc else 0)
        else:
            p = re.compile(r'\w', re.A if asc else 0)
        _CAT[key] = _ranges(lambda c: p.match(c) is not None)
    return _CAT[key], 'NOT_' in str(cat)


class Cls(object):
    """A set of characters."""
    __slots__ = ('ranges', 'neg')

    def __init__(self, ranges, neg=False):
        self.ranges, self.neg = ranges, neg

    def has(self, code):
        return any(a <= code <= b for a, b in self.ranges) != self.neg

    def cond(self, x):
        if isinstance(x, int):
            return self.has(x)
        parts = []
        for a, b in self.ranges:
            parts.append(x == z3.BitVecVal(a, 21) if a == b else z3.And(z3.UGE(x, a), z3.ULE(x, b)))
        c = zor(parts)
        return znot(c) if self.neg else c


def _invert(ranges):
    out, lo = [], 0
    for a, b in sorted(ranges):
        if a > lo:
            out.append((lo, a - 1))
        lo = max(lo, b + 1)
    if lo <= 0x10ffff:
        out.append((lo, 0x10ffff))
    return out


class Matcher(object):
    def __init__(self, pat, items):
        self.flags = pat.flags
        self.items = items
        self.tree = sre_parse.parse(pat.pattern, pat.flags & ~re.DEBUG)
        self.ngroups = pat.groups
        self.asc = bool(pat.flags & re.A)
        self.icase = bool(pat.flags & re.I)
        self.steps = 0

    # -- character tests
    def fold(self, code):
        if not self.icase:
            return [(code, code)]
        c = chr(code)
        return [(ord(x), ord(x)) for x in {c, c.lower(), c.upper()} if len(x) == 1]

    def charset(self, op, av):
        if op is C.LITERAL:
            return Cls(self.fold(av))
        if op is C.NOT_LITERAL:
            return Cls(self.fold(av), True)
        if op is C.ANY:
            return Cls([], True) if self.flags & re.S else Cls([(10, 10)], True)
        if op is C.IN:
            neg, rs = False, []
            for o, v in av:
                if o is C.NEGATE:
                    neg = True
                elif o is C.LITERAL:
                    rs += self.fold(v)
                elif o is C.RANGE:
                    rs.append(v)
                    if self.icase:
                        for a, b, d in ((65, 90, 32), (97, 122, -32)):
                            lo, hi = max(a, v[0]), min(b, v[1])
                            if lo <= hi:
                                rs.append((lo + d, hi + d))
                elif o is C.CATEGORY:
                    r, n = category(v, self.asc)
                    rs += _invert(r) if n else r
                else:
                    raise Unsupported('regular expression %s' % o)
            return Cls(rs, neg)
        if op is C.CATEGORY:
            r, n = category(av, self.asc)
            return Cls(r, n)
        return None

    def test(self, cs, i):
        if i < 0 or i >= len(self.items):
            return False
        x = self.items[i]
        if type(x) is NumAtom:
            r = set(cs.has(c) for c in x.charset())
            if len(r) == 1:
                return r.pop()
            raise Unsupported('regular expression inside a number text')
        c = cs.cond(x)
        return c if isinstance(c, bool) else E().decide(c)

    def word(self, i):
        return self.test(Cls(category(C.CATEGORY_WORD, self.asc)[0]), i)

    # -- matching: m(seq, index in seq, position, groups, continuation) -> result or None
    def m(self, seq, k, i, gs, cont):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported('regular expression: too many steps')
        if k == len(seq):
            return cont(i, gs)
        op, av = seq[k]
        nxt = lambda j, g: self.m(seq, k + 1, j, g, cont)
        cs = self.charset(op, av)
        if cs is not None:
            return nxt(i + 1, gs) if self.test(cs, i) else None
        if op is C.AT:
            return nxt(i, gs) if self.at(av, i) else None
        if op is C.SUBPATTERN:
            grp, add, rem, p = av
            if add or rem:
                raise Unsupported('inline flags in a regular expression')

            def close(j, g):
                if grp is not None:
                    g = dict(g)
                    g[grp] = (i, j)
                return nxt(j, g)
            return self.m(list(p), 0, i, gs, close)
        if op is C.BRANCH:
            for p in av[1]:
                r = self.m(list(p), 0, i, gs, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) or str(op) == 'POSSESSIVE_REPEAT':
            lo, hi, p = av
            p = list(p)
            hi = None if hi is C.MAXREPEAT else hi
            if len(p) == 1 and self.charset(*p[0]) is not None:
                return self.simple(op, self.charset(*p[0]), lo, hi, i, gs, nxt)
            if str(op) == 'POSSESSIVE_REPEAT':
                raise Unsupported('possessive repeat')

            def rep(n, j, g):
                def more(j2, g2):
                    if j2 == j and n >= lo:
                        return None
                    return rep(n + 1, j2, g2)
                if n < lo:
                    return self.m(p, 0, j, g, more)
                if op is C.MAX_REPEAT:
                    if hi is None or n < hi:
                        r = self.m(p, 0, j, g, more)
                        if r is not None:
                            return r
                    return nxt(j, g)
                r = nxt(j, g)
                if r is not None:
                    return r
                return self.m(p, 0, j, g, more) if hi is None or n < hi else None
            return rep(0, i, gs)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                w = p.getwidth()
                if w[0] != w[1]:
                    raise Unsupported('look-behind')
                r = self.m(list(p), 0, i - w[0], gs, lambda j, g: (j, g)) if i >= w[0] else None
            else:
                r = self.m(list(p), 0, i, gs, lambda j, g: (j, g))
            if (r is not None) != (op is C.ASSERT):
                return None
            return nxt(i, r[1] if op is C.ASSERT else gs)
        if op is C.GROUPREF:
            if av not in gs:
                return None
            a, b = gs[av]
            from .values import ceq
            for n in range(b - a):
                if i + n >= len(self.items):
                    return None
                c = ceq(self.items[a + n], self.items[i + n])
                if not (c if isinstance(c, bool) else E().decide(c)):
                    return None
            return nxt(i + b - a, gs)
        if str(op) == 'ATOMIC_GROUP':
            r = self.m(list(av), 0, i, gs, lambda j, g: (j, g))
            return None if r is None else nxt(*r)
        raise Unsupported('regular expression %s' % op)

    def simple(self, op, cs, lo, hi, i, gs, nxt):
        if op is C.MIN_REPEAT:
            n = 0
            while n < lo:
                if not self.test(cs, i + n):
                    return None
                n += 1
            while True:
                r = nxt(i + n, gs)
                if r is not None:
                    return r
                if hi is not None and n >= hi or not self.test(cs, i + n):
                    return None
                n += 1
        n = 0
        while (hi is None or n < hi) and self.test(cs, i + n):
            n += 1
        if str(op) == 'POSSESSIVE_REPEAT':
            return nxt(i + n, gs) if n >= lo else None
        while n >= lo:
            r = nxt(i + n, gs)
            if r is not None:
                return r
            n -= 1
        return None

    def at(self, what, i):
        n = len(self.items)
        nl = Cls([(10, 10)])
        if what is C.AT_BEGINNING:
            return i == 0 or bool(self.flags & re.M) and self.test(nl, i - 1)
        if what is C.AT_BEGINNING_STRING:
            return i == 0
        if what is C.AT_END:
            if i == n:
                return True
            if self.flags & re.M:
                return self.test(nl, i)
            return i == n - 1 and self.test(nl, i)
        if what is C.AT_END_STRING:
            return i == n
        if what in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            return (self.word(i - 1) != self.word(i)) == (what is C.AT_BOUNDARY)
        raise Unsupported('regular expression %s' % what)

    def run(self, i, full=False, least=False):
        n = len(self.items)
        return self.m(list(self.tree), 0, i, {}, lambda j, g: (j, g) if (not full or j == n) and not (least and j == i) else None)


class SymMatch(object):
    def __init__(self, pat, s, i, r):
        self.re, self.string, self.pos, self.endpos = pat, s, 0, len(items_of(s))
        self._s, self._i, self._j, self._g = items_of(s), i, r[0], r[1]

    def span(self, g=0):
        if g == 0:
            return (self._i, self._j)
        if isinstance(g, str):
            g = self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError('no such group')
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        self._count(self.span(g)[0])
        return self.span(g)[0]

    def end(self, g=0):
        self._count(self.span(g)[1])
        return self.span(g)[1]

    def _count(self, n):
        if any(type(x) is NumAtom for x in self._s[:max(n, 0)]):
            raise Unsupported('position after a number text')

    def _one(self, g, dflt=None):
        a, b = self.span(g)
        return dflt if a < 0 else mkstr(self._s[a:b])

    def group(self, *gs):
        if len(gs) <= 1:
            return self._one(gs[0] if gs else 0)
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((n, self._one(g, default)) for n, g in self.re.groupindex.items())

    @property
    def lastindex(self):
        return max(self._g, key=lambda g: self._g[g][1]) if self._g else None

    @property
    def lastgroup(self):
        n = self.lastindex
        for k, v in self.re.groupindex.items():
            if v == n:
                return k

    def expand(self, t):
        return template(self, t)


def template(m, t):
    from re import _parser
    parts = _parser.parse_template(t, m.re) if hasattr(_parser, 'parse_template') else None
    if parts is None:
        raise Unsupported('regular expression template')
    out = []
    if isinstance(parts, list):
        for p in parts:
            out.extend(items_of(p if isinstance(p, str) else m._one(p, '')))
        return mkstr(out)
    groups, lits = parts
    lits = list(lits)
    for k, g in groups:
        lits[k] = m._one(g, '')
    for p in lits:
        if p:
            out.extend(items_of(p))
    return mkstr(out)


def scan(pat, s, start=0):
    """Successive matches, as finditer yields them."""
    its = items_of(s)
    i, must = start, False
    while i <= len(its):
        p, r = i, None
        while p <= len(its):
            r = Matcher(pat, its).run(p, least=must and p == i)
            if r is not None:
                break
            p += 1
        if r is None:
            return
        yield SymMatch(pat, s, p, r)
        i, must = r[0], r[0] == p


def method(pat, name, a, k):
    import operator
    if isinstance(pat.pattern, bytes):
        raise Unsupported('binary regular expression')
    names = {'sub': ('repl', 'string', 'count'), 'subn': ('repl', 'string', 'count'), 'split': ('string', 'maxsplit')}.get(name, ('string', 'pos', 'endpos'))
    v = dict(zip(names, a), **k)
    s = v['string']
    if items_of(s) is None:
        raise TypeError("expected string or bytes-like object, got '%s'" % type(s).__name__)
    if v.get('pos') or v.get('endpos') is not None:
        raise Unsupported('regular expression from a position')
    if name in ('match', 'fullmatch'):
        r = Matcher(pat, items_of(s)).run(0, name == 'fullmatch')
        return None if r is None else SymMatch(pat, s, 0, r)
    if name == 'search':
        for m in scan(pat, s):
            return m
        return None
    if name == 'finditer':
        return iter(list(scan(pat, s)))
    if name == 'findall':
        out = []
        for m in scan(pat, s):
            out.append(m.group() if pat.groups == 0 else m.groups('')[0] if pat.groups == 1 else m.groups(''))
        return out
    if name == 'split':
        out, at, n = [], 0, 0
        its = items_of(s)
        for m in scan(pat, s):
            if v.get('maxsplit') and n >= v['maxsplit']:
                break
            out.append(mkstr(its[at:m._i]))
            out.extend(m.groups())
            at = m._j
            n += 1
        out.append(mkstr(its[at:]))
        return out
    if name in ('sub', 'subn'):
        out, at, n = [], 0, 0
        its = items_of(s)
        repl = v['repl']
        for m in scan(pat, s):
            if v.get('count') and n >= v['count']:
                break
            out.extend(its[at:m._i])
            if callable(repl):
                t = repl(m)
            elif type(repl) is str and '\\' in repl:
                t = template(m, repl)
            else:
                t = repl
            if items_of(t) is None:
                raise TypeError('sequence item: expected str instance, %s found' % type(t).__name__)
            out.extend(items_of(t))
            at = m._j
            n += 1
        out.extend(its[at:])
        r = mkstr(out)
        return r if name == 'sub' else (r, n)
    raise Unsupported('regular expression %s' % name)


FUNCS = {}
for _n in ('match', 'fullmatch', 'search', 'sub', 'subn', 'split', 'findall', 'finditer'):
    FUNCS[getattr(re, _n)] = _n


def function(f, a, k):
    name = FUNCS[f]
    names = {'sub': ('pattern', 'repl', 'string', 'count', 'flags'), 'subn': ('pattern', 'repl', 'string', 'count', 'flags'),
             'split': ('pattern', 'string', 'maxsplit', 'flags')}.get(name, ('pattern', 'string', 'flags'))
    v = dict(zip(names, a), **k)
    pat = v.pop('pattern')
    if type(pat) is SymStr:
        raise Unsupported('symbolic regular expression')
    pat = re.compile(pat, v.pop('flags', 0))
    return method(pat, name, (), v)
