"""Snippets of Python over one or two symbolic strings, numbers or flags: run.py compares what the engine says
they yield with what they yield."""
import copy
import functools
import io
import itertools
import operator
import re
import string
from collections import OrderedDict, defaultdict, namedtuple, deque, Counter, ChainMap
from xml.sax.saxutils import escape, quoteattr

ALPHA = ":#_ab1 .&<\"\n\u00e9"


# ---- strings: f(s, t); s has up to 3 characters, t one
def s_split(s, t): return s.split(':')
def s_split_t(s, t): return s.split(t)
def s_split_ws(s, t): return s.split()
def s_split1(s, t): return s.split('#', 1)
def s_rsplit1(s, t): return s.rsplit('.', 1)
def s_split_last(s, t): return s.split('#')[-1]
def s_partition(s, t): return s.partition('#')
def s_rpartition(s, t): return s.rpartition('.')[2]
def s_strip(s, t): return s.strip()
def s_strip_c(s, t): return s.strip('#_')
def s_lstrip_t(s, t): return s.lstrip(t)
def s_rstrip(s, t): return s.rstrip('\n')
def s_replace(s, t): return s.replace('&', '&amp;').replace('<', '&lt;')
def s_replace_t(s, t): return s.replace(t, 'xy')
def s_replace_n(s, t): return s.replace('a', 'bb', 1)
def s_replace_empty(s, t): return s.replace('', '-')
def s_find(s, t): return s.find(t), s.rfind(t)
def s_find2(s, t): return s.find('#', 1)
def s_index(s, t): return s.index('#')
def s_count(s, t): return s.count(t)
def s_in(s, t): return t in s
def s_in2(s, t): return 'a:' in s
def s_notin(s, t): return t not in ('a', 'b')
def s_inset(s, t): return t in {'a', 'b', '_'}
def s_indict(s, t): return {'a': 1, '_': 2}.get(t, 3)
def s_starts(s, t): return s.startswith('_'), s.startswith(('a', '#')), s.endswith(t)
def s_starts_at(s, t): return s.startswith('a', 1)
def s_upper(s, t): return s.upper(), s.lower(), s.title(), s.capitalize(), s.swapcase()
def s_is(s, t): return s.isdigit(), s.isalpha(), s.isalnum(), s.isspace(), s.isupper(), s.islower()
def s_isid(s, t): return s.isidentifier(), s.isdecimal(), s.isnumeric(), s.isascii(), s.isprintable()
def s_len(s, t): return len(s) + len(t)
def s_bool(s, t): return 'y' if s else 'n'
def s_or(s, t): return s or t
def s_cmp(s, t): return s < t, s <= 'a', s > '_', s >= t
def s_eq(s, t): return s == t, s != 'ab:', s == 'a'
def s_slice(s, t): return s[1:], s[:-1], s[::-1], s[0], s[-1], s[1:2]
def s_iter(s, t): return [c for c in s if c != '#']
def s_join(s, t): return ''.join(c for c in s if c.isalnum())
def s_join2(s, t): return t.join(['a', s, 'b'])
def s_join3(s, t): return s.join('xyz')
def s_fstring(s, t): return f'<{s}:{t!s}>{len(s)}'
def s_fpad(s, t): return f'[{s:>6}|{s:<6}|{s:^7}|{s:_>5}]'
def s_format(s, t): return '{0}-{1}-{0}'.format(s, t), '{a}'.format(a=s), '{:>5}'.format(s)
def s_percent(s, t): return '%s=%s' % (s, t), '%(a)s' % {'a': s}, '%5s|%-5s|' % (s, t)
def s_repr(s, t): return '%r' % (s,), repr(t), f'{s!r}'
def s_concat(s, t): return s + t + 'x', 'y' + s
def s_mul(s, t): return s * 2, 3 * t
def s_ord(s, t): return ord(t), chr(ord(t) + 1)
def s_translate(s, t): return s.translate({ord('&'): '&amp;', ord('<'): None, ord('a'): 'A'})
def s_maketrans(s, t): return s.translate(str.maketrans('ab', 'xy', '#'))
def s_escape(s, t): return escape(s), escape(s, {'"': '&quot;'})
def s_quoteattr(s, t): return quoteattr(s)
def s_re_sub(s, t): return re.sub('[&<]', lambda m: '&#%d;' % ord(m.group(0)), s)
def s_re_sub2(s, t): return re.sub(r'^#+', '', s)
def s_re_match(s, t): return bool(re.match(r'^[a-z_]+$', s))
def s_re_full(s, t): return bool(re.fullmatch(r'\d+|a.', s))
def s_re_search(s, t):
    m = re.search('(a|b)(.)', s)
    return m and (m.group(1), m.group(2), m.start())
def s_re_split(s, t): return re.split('[#.]', s)
def s_re_findall(s, t): return re.findall('[ab]', s)
def s_re_comp(s, t): return RX.sub('_', s)
def s_splitlines(s, t): return s.splitlines()
def s_expand(s, t): return s.expandtabs()
def s_zfill(s, t): return s.zfill(5)
def s_just(s, t): return s.ljust(5, '.'), s.rjust(4), s.center(5)
def s_removeprefix(s, t): return s.removeprefix('#'), s.removesuffix(t)
def s_encode(s, t): return s.encode('utf-8').decode('utf-8')
def s_encode_len(s, t): return len(s.encode('utf-8'))
def s_bytes(s, t): return [b for b in s.encode('utf-8')]
def s_charref(s, t): return s.encode('ascii', 'xmlcharrefreplace').decode('ascii')
def s_dict(s, t):
    d = {}
    for c in s:
        d[c] = d.get(c, 0) + 1
    return len(d), sorted(d.values())
def s_dictkey(s, t):
    d = {s: 1}
    d[t] = 2
    return len(d), t in d, d[s], list(d.values())
def s_setdefault(s, t):
    d = {}
    for i, c in enumerate(s):
        d.setdefault(c, []).append(i)
    return list(d.items())
def s_defaultdict(s, t):
    d = defaultdict(list)
    for i, c in enumerate(s):
        d[c].append(i)
    return [(k, v) for k, v in d.items()]
def s_ordered(s, t):
    d = OrderedDict()
    for c in s + t:
        d[c] = c
    return list(d)
def s_counter(s, t): return sorted(Counter(s).values())
def s_pop(s, t):
    d = {'a': 1, 'b': 2}
    x = d.pop(t, None)
    return x, sorted(d)
def s_del(s, t):
    d = {'a': 1, '#': 2, 'z': 3}
    if t in d:
        del d[t]
    return sorted(d)
def s_keyerror(s, t):
    try:
        return {'a': 1}[t]
    except KeyError:
        return 'none'
def s_set(s, t): return len(set(s)), len({s, t}), len(frozenset(s))
def s_setops(s, t): return len({'a', 'b'} & {t}), len({'a'} | {t}), len({'a', 'b'} - {t}), len({'a'} ^ {t})
def s_seen(s, t):
    seen, out = set(), []
    for c in s:
        if c not in seen:
            seen.add(c)
            out.append(c)
    return out
def s_listin(s, t): return t in list(s), list(s).count(t)
def s_listindex(s, t):
    try:
        return list(s).index('#')
    except ValueError:
        return -1
def s_sorted(s, t): return sorted(s), sorted(s, reverse=True), ''.join(sorted(s))
def s_sortkey(s, t): return sorted(['b', t, 'a'], key=lambda x: (x != 'a', x))
def s_minmax(s, t): return min('a', t), max([t, '_', 'a'])
def s_anyall(s, t): return any(c == '#' for c in s), all(c.isalnum() for c in s)
def s_mapfilter(s, t): return list(map(str.upper, s)), list(filter(str.isalpha, s)), list(filter(None, s.split('#')))
def s_zip(s, t): return list(zip(s, 'xyz')), list(enumerate(s)), list(reversed(s))
def s_itertools(s, t): return list(itertools.chain(s, t)), list(itertools.takewhile(lambda c: c != '#', s)), list(itertools.islice(s, 2))
def s_groupby(s, t): return [(k, len(list(g))) for k, g in itertools.groupby(s)]
def s_reduce(s, t): return functools.reduce(lambda a, c: a + ord(c), s, 0)
def s_lru(s, t): return [cached(c) for c in s]
def s_partial(s, t): return functools.partial(str.replace, s)('a', 'b')
def s_opitem(s, t): return operator.itemgetter(0)(s), operator.methodcaller('upper')(t)
def s_stringio(s, t):
    f = io.StringIO()
    f.write(s)
    f.write(t)
    return f.getvalue()
def s_print(s, t):
    f = io.StringIO()
    print(s, t, sep='|', end='\n', file=f)
    return f.getvalue()
def s_deque(s, t):
    d = deque(s)
    d.appendleft(t)
    d.rotate(1)
    return list(d)
def s_named(s, t):
    p = P(s, t)
    return p.x, p._replace(x=t).x, p == P(s, t)
def s_match(s, t):
    match s:
        case '': return 0
        case 'a' | 'b': return 1
        case str() if s.startswith('#'): return 2
        case _: return 3
def s_matchseq(s, t):
    match s.split('#'):
        case [x]: return x
        case ['', y]: return y
        case [x, y]: return x + y
        case [*r]: return len(r)
def s_walrus(s, t):
    if (i := s.find('#')) >= 0:
        return i
    return None
def s_ternary(s, t): return 'a' if t == 'a' else 'b' if t in '#_' else t
def s_while(s, t):
    n = 0
    while s and s[0] in ' \n':
        s = s[1:]
        n += 1
    return n, s
def s_try(s, t):
    try:
        return int(s)
    except ValueError:
        return 'bad'
def s_tryfloat(s, t):
    try:
        return float(s) == 1.0
    except ValueError:
        return 'bad'
def s_gen(s, t): return list(words(s))
def s_star(s, t):
    a, *b = s + 'xy'
    return a, b
def s_unpack(s, t):
    a, b = (s + t + 'q')[-2:]
    return a, b
def s_tuplecmp(s, t): return (s, 1) < (t, 2), (t, 'a') == ('a', t)
def s_deepcopy(s, t): return copy.deepcopy([s, {'a': t}]), copy.copy([t])
def s_isinstance(s, t): return isinstance(s, str), isinstance(t, (int, str)), type(s) is str, type(s) == str
def s_strstr(s, t): return str(s), str.split(s, '#'), str.__add__(s, t), ''.__class__(t)
def s_strnew(s, t): return str(s) is not None, str.join('-', [s, t])
def s_hash(s, t): return hash(s) == hash(s)
def s_exc(s, t):
    try:
        raise ValueError(s)
    except ValueError as e:
        return str(e), e.args[0]
def s_attr(s, t):
    o = O()
    setattr(o, 'x', s)
    return getattr(o, 'x'), hasattr(o, 'y'), o.__dict__['x'], vars(o)
def s_getattr_sym(s, t): return getattr(O2(), t, 'no')
def s_class(s, t): return MyStr(s).shout()
def s_template(s, t): return string.Template('$a-$b').substitute(a=s, b=t)
def s_chain(s, t): return ChainMap({'a': 1}, {'#': 2}).get(t)
def s_dictmerge(s, t): return {**{'k': s}, 'l': t}, dict(a=s), dict([('z', t)]), {'a': 1} | {'b': s}
def s_fromkeys(s, t): return list(dict.fromkeys(s))
def s_dictcomp(s, t): return {c: i for i, c in enumerate(s)}
def s_setcomp(s, t): return len({c.upper() for c in s})
def s_items(s, t): return [(k, v) for k, v in {'a': s, 'b': t}.items() if v != 'a']
def s_aug(s, t):
    r = ''
    for c in s:
        r += c + t
    return r
def s_listops(s, t):
    l = list(s)
    l.append(t)
    l.insert(0, 'q')
    l.extend('xy')
    l += [t]
    l[1:2] = [t, t]
    return l, l[::-1], l * 2
def s_remove(s, t):
    l = list(s) + [t]
    l.remove(t)
    return l
def s_sort(s, t):
    l = list(s) + [t]
    l.sort()
    return l
def s_pop_list(s, t):
    l = list(s) + [t]
    return l.pop(), l
def s_codepoint(s, t): return [c for c in s if ord(c) < 0x40], '\\u%04x' % ord(t), hex(ord(t)), '&#x%X;' % ord(t)
def s_intstr(s, t): return str(len(s)), str(ord(t)), int(str(ord(t)))
def s_closure(s, t):
    def f(x): return x + t
    return f(s)
def s_nonlocal(s, t):
    n = 0
    def f():
        nonlocal n
        n += s.count('a')
    f()
    f()
    return n
def s_forelse(s, t):
    for c in s:
        if c == '#':
            break
    else:
        return 'no'
    return 'yes'
def s_property(s, t):
    p = Q()
    p.v = s
    return p.v, Q.v.fget(p)
def s_ctx(s, t):
    with io.StringIO() as f:
        f.write(s)
        return f.getvalue()
def s_assert(s, t):
    try:
        assert s != 'a', t
    except AssertionError as e:
        return str(e)
    return 'ok'
def s_chained(s, t): return 'a' <= t <= 'b', s == s == t
def s_boolops(s, t): return bool(s and t), not s, (s == 'a') + (t == 'a'), sum(c == '#' for c in s)
def s_xor(s, t): return (t == 'a') ^ (s == 'a'), (t == 'a') & True, (t == 'a') | (s == '')
def s_int_of_bool(s, t): return int(t == 'a'), [10, 20][t == 'a']
def s_rangelen(s, t): return [i for i in range(len(s))], s[len(s) - 1]
def s_formatmap(s, t): return '{a}{b}'.format_map({'a': s, 'b': t})
def s_casefold(s, t): return s.casefold() == t.casefold()
def s_tail(s, t): return s[s.rfind('.') + 1:], s[s.find('#') + 1:], s[s.index(s[-1]):] if s else ''
def s_negslice(s, t): return s[-2:], s[:-2], s[5:], s[-9:2]
def s_urn(s, t): return ('urn:uuid:' + s)[len('urn:uuid:'):] == s
def s_html(s, t):
    import html
    return html.escape(s), html.escape(t, quote=False)
def s_quote(s, t):
    from urllib.parse import quote
    return quote(t)
def s_urlsplit(s, t):
    from urllib.parse import urldefrag
    return urldefrag('http://x/' + s).fragment
def s_path(s, t):
    import os.path
    return os.path.join('a', s), os.path.basename('x/' + t), os.path.splitext(s)[1]
def s_hashed(s, t): return {'a': 1, '#': 2}[t] if t in frozenset('a#') else None
def s_setlit(s, t): return len({*s, t}), sorted({**{s: 1}, t: 2}.values())
def s_enc_replace(s, t): return s.encode('ascii', 'ignore').decode() + t
def s_findall_it(s, t): return [m.start() for m in re.finditer('a', s)]
def s_re_groups(s, t):
    m = re.match(r'(?P<ns>[^#]*)#(?P<id>.*)$', s)
    return m.groupdict() if m else None
def s_re_esc(s, t): return re.sub(re.escape('.'), '-', s)
def s_re_ref(s, t): return re.sub('([ab])', r'<\1>', s)
def s_xmlchars(s, t): return s.translate(TABLE)


# ---- numbers: f(i, x)
def n_arith(i, x): return i + 1, i - 2, i * 3, -i, abs(i), 2 - i
def n_divmod(i, x): return i // 3, i % 3, divmod(i, 3), i // -3, i % -3
def n_cmp(i, x): return i < 3, i == 0, i != 2, 1 <= i <= 4
def n_bool(i, x): return bool(i), not i, i or 'zero', i and 'nz'
def n_str(i, x): return str(i) == '5', '%d' % i == '-3'
def n_strlen(i, x): return len(str(abs(i) % 10))
def n_roundtrip(i, x): return int(str(i)) == i
def n_floatof(i, x): return float(i % 8) == 3.0
def n_float(i, x): return x + 1.0 > x, x == x, x < 0, x * 2 == x
def n_floatstr(i, x): return float(str(x)) == x
def n_floatrepr(i, x): return float(repr(x)) == x
def n_is(i, x): return isinstance(i, int), isinstance(x, float), type(x) is float, type(i) == int, isinstance(i, bool)
def n_eqdefault(i, x): return x == 0.0, x != 0.0, i == 0, bool(x)
def n_minmax(i, x): return min(i, 3), max(i, 3)
def n_neg(i, x): return -x == x, abs(x) >= 0
def n_int(i, x): return int(i), int(True)
def n_in(i, x): return i in (1, 2, 3), x in (0.0, None), i in [0], i is None
def n_dict(i, x): return {0: 'a', 1: 'b'}.get(i, 'c')
def n_range(i, x): return i in range(3)
def n_fmt(i, x): return f'{i}' == '7', '{}'.format(i) == '7'
def n_tuple(i, x): return (i, 1) == (1, 1), [i] == [2], {'a': i} == {'a': 0}
def n_isnan(i, x):
    import math
    return math.isnan(x), math.isinf(x), x != x
def n_pct(i, x): return '%s' % i == '12', '%s' % x == '1.0', str(x) == '0.0', '%s' % x == '1.5'
def n_list(i, x): return [10, 20, 30][i % 3]
def n_bits(i, x): return (i % 16) & 3, (i % 16) | 1, (i % 4) << 1, (i % 16) >> 1
def n_isinteger(i, x): return x.is_integer()
def n_boolint(i, x): return (i == 3) == True, (i > 1) is True, (i > 1) in (True,), str(i > 1), 'true' if i > 1 else 'false'
def n_boolstr(i, x): return str(i > 1).lower(), '%s' % (i > 1), f'{i > 1}', repr(i > 1)
def n_booleq(i, x): return (i > 1) == 1, (i > 1) != 'True', (i > 1) == (x > 1), isinstance(i > 1, bool), type(i > 1) is bool


RX = re.compile('[^a-z]')
TABLE = {c: None for c in range(32) if c not in (9, 10, 13)}
TABLE[38] = '&amp;'
P = namedtuple('P', 'x y')


class O(object):
    pass


class O2(object):
    a = 1
    b = 2


class MyStr(str):
    def shout(self):
        return self.upper()


class Q(object):
    def __init__(self):
        self._v = None

    @property
    def v(self):
        return self._v

    @v.setter
    def v(self, x):
        self._v = x


@functools.lru_cache(maxsize=None)
def cached(c):
    return c * 2


def words(s):
    w = ''
    for c in s:
        if c == '#':
            yield w
            w = ''
        else:
            w += c
    yield w


# ---- references: f(o, a, b, l): o three objects, a and b any of them or None, l a list of two of them
def r_is(o, a, b, l): return a is b, a is None, a is not b, a == b, a != b, a is o[0]
def r_bool(o, a, b, l): return bool(a), not a, a or b, a and b
def r_in(o, a, b, l): return a in l, a not in l, o[0] in l, None in l
def r_count(o, a, b, l): return l.count(a), l.count(o[1])
def r_index(o, a, b, l):
    try:
        return l.index(a)
    except ValueError:
        return -1
def r_remove(o, a, b, l):
    l = list(l)
    if a in l:
        l.remove(a)
    return l
def r_filter(o, a, b, l): return [x for x in l if x != a], [x for x in l if x is not b]
def r_append(o, a, b, l):
    l = l + [a]
    l.append(b)
    return l, l[-1], len(l)
def r_dict(o, a, b, l):
    d = {a: 1}
    d[b] = 2
    return len(d), d.get(o[0]), d.get(a)
def r_id(o, a, b, l): return id(a) == id(b), len({id(x) for x in l}), id(a) in [id(x) for x in l]
def r_set(o, a, b, l): return len(set(l)), a in set(l), len({a, b})
def r_setops(o, a, b, l): return len(set(l) & {a}), len(set(l) - {a}), len(set(l) | {a, b})
def r_attr(o, a, b, l):
    if a is not None:
        a.mark = 5
    return [getattr(x, 'mark', 0) for x in o], getattr(a, 'mark', None), hasattr(b, 'mark')
def r_swap(o, a, b, l):
    a, b = b, a
    return [a, b]
def r_anyall(o, a, b, l): return any(x is a for x in l), all(x is not b for x in l)
def r_sort(o, a, b, l): return sorted([x for x in l if x is not None], key=lambda x: x.n)
def r_listeq(o, a, b, l): return l == [a, b], l != [o[0], o[1]], (a, b) == tuple(l)
def r_unique(o, a, b, l):
    out = []
    for x in l + [a, b]:
        if x not in out:
            out.append(x)
    return out
def r_next(o, a, b, l): return next((x for x in l if x is not a), None)
def r_max(o, a, b, l): return [i for i, x in enumerate(l) if x is a], list(reversed(l)), l[::-1]
def r_isin(o, a, b, l): return isinstance(a, N), type(a) is N, isinstance(b, (int, N)), type(b) == type(None)
def r_str(o, a, b, l): return '' if a is None else a.name + '!'
def r_pop(o, a, b, l):
    l = list(l)
    if a in l:
        return l.pop(l.index(a)), l
    return l
def r_del(o, a, b, l):
    l = [a, b] + l
    del l[0]
    l[0:1] = []
    l.insert(0, a)
    return l
def r_extend(o, a, b, l):
    m = l[:]
    m.extend(x for x in (a, b) if x)
    m *= 1
    return m
def r_try(o, a, b, l):
    try:
        return a.n
    except AttributeError:
        return 'none'
def r_zip(o, a, b, l): return list(zip(l, (a, b))), dict(zip('xy', l))
def r_tuplein(o, a, b, l): return (a, 1) in [(o[0], 1), (b, 1)], a in (b, None)
def r_method(o, a, b, l): return [x.other(a) for x in l if x is not None]
def r_hashattr(o, a, b, l): return {x.name for x in l if x} == {'n0'}
def r_filterfn(o, a, b, l): return list(filter(None, l)), list(map(lambda x: x is a, l))
def r_while(o, a, b, l):
    l = list(l)
    while a in l:
        l.remove(a)
    return l
def r_copy(o, a, b, l): return list(l), l.copy(), [*l, a]
def r_dictid(o, a, b, l):
    d = {id(x): x for x in o}
    return d.get(id(a)), d.get(id(b), 'no')
def r_eqlist(o, a, b, l): return [a] == [b], [a, b].index(b), [a, b].count(a)
def r_ops(o, a, b, l): return operator.is_(a, b), operator.eq(a, b), operator.contains(l, a), operator.not_(a)


class N(object):
    def __init__(self, n):
        self.n, self.name = n, 'n%d' % n

    def other(self, x):
        return self is not x


# ---- targets of assignments and loops that are subscripts
def s_target_chain(s, t):
    d = {}
    x = d[s] = d[t] = s + t
    return x, len(d), d.get(s), d[t]
def s_target_tuple(s, t):
    d = {}
    d[s], y, (d[t], *z) = 1, 2, (3, 4, 5)
    return list(d.items()), y, z
def s_target_swap(s, t):
    l = [s, t]
    l[0], l[1] = l[1], l[0]
    return l
def s_target_for(s, t):
    d = {}
    for d[s], k in ((1, 'a'), (2, t)):
        d[k] = k
    for i, d[t] in enumerate(s):
        pass
    return list(d.items())
def r_target_chain(o, a, b, l):
    d = {}
    x = d[a] = d[b] = len(d)
    y, d[a] = d[b], 7
    return x, y, d[b], d.get(o[0])
