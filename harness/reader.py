"""Reading documents: cimread (R01-R07)."""
import importlib
import logging
from harness import model
from harness.model import CLASSES, SPEC, features, cls, is_many, lineage, ALIAS, IMPEDANCE
from harness.frame import attrs_of, refs_of
from symx.xmldoc import Doc, Node, RDF, source, SourceFailed
from xml.etree.ElementTree import ParseError

SOURCE_MODES = ('plain', 'dribble')
IDCH = 'aAb_-.:/%029# \u00e9'
SPACE = '\n    '
PKG = SPEC['packageMap']
URI = SPEC['nsURI']
CIM16 = 'http://iec.ch/TC57/2013/CIM-schema-cim16'


# ------------------------------------------------------------------------------ building documents
def profile_of(m):
    """The map module (profile or CIM version) that reads m, or None if m is in no map."""
    best = None
    for p in PKG:
        if m.startswith(p + '.') and (best is None or len(p) > len(best)):
            best = p
    if best is None:
        return None
    n = CLASSES[m]['name']
    return best if PKG[best].get(n, '') + '.' + n == m else None


class Writer(object):
    """Builds the elements of one document in one CIM namespace."""

    def __init__(self, ns):
        self.ns = ns
        self.elems = []

    def attr(self, owner, name, text):
        return Node('{%s#}%s.%s' % (self.ns, owner, name), (), text, (), SPACE)

    def ref(self, owner, name, ident):
        return Node('{%s#}%s.%s' % (self.ns, owner, name), [('{%s}resource' % RDF, '#' + ident)], None, (), SPACE)

    def enum(self, owner, name, typ, literal):
        return Node('{%s#}%s.%s' % (self.ns, owner, name),
                    [('{%s}resource' % RDF, self.ns + '#' + typ + '.' + literal)], None, (), SPACE)

    def obj(self, tag, ident, children=(), about=False):
        key, val = ('about', '#' + ident) if about else ('ID', ident)
        n = Node('{%s#}%s' % (self.ns, tag), [('{%s}%s' % (RDF, key), val)], SPACE if children else None, children)
        self.elems.append(n)
        return n

    def doc(self, order=None, prefixes=None, elems=None):
        es = self.elems if elems is None else elems
        if order is not None:
            es = [es[i] for i in order]
        return Doc(prefixes or [('rdf', RDF), ('cim', self.ns + '#')],
                   Node('{%s}RDF' % RDF, (), '\n', es, None))


def version(ns):
    """Which class table the reader must use for a document in this namespace (no explicit profile)."""
    return 'CIM14' if ns == URI['CIM14'] else 'CIM15'


def how(p):
    """(namespace, keyword arguments) to read a document of profile p."""
    if p in ('CIM14', 'CIM15'):
        return URI[p], {}
    return URI[p], dict(packageMap=importlib.import_module(p).packageMap, nsURI=URI[p])


def read(h, doc, kind='stream', **kw):
    from PyCIM import cimread
    return cimread(source(h, doc, kind), **kw)


def instance(m, p):
    """A class of profile p that is m or descends from m."""
    if profile_of(m) == p:
        return m
    for k in sorted(CLASSES):
        if m in lineage(k) and profile_of(k) == p:
            return k
    return None


def eager(h, fn, **params):
    """Another harness, with a parser that has built the whole document before the first event is taken."""
    from symx import xmldoc
    xmldoc.EAGER[0] = True
    try:
        globals()[fn](h, **params)
    finally:
        xmldoc.EAGER[0] = False


def untouched(h, x, m, but, label):
    """Every feature of x but these is as in a fresh object."""
    for a, (typ, d, enum) in attrs_of(m):
        if a not in but and a != 'UUID':
            h.check(h.eq(getattr(x, a), d), label + ': ' + a)
    for f, k, (kind, t, g) in refs_of(m):
        if f in but or (f in IMPEDANCE and but & IMPEDANCE):
            continue
        v = getattr(x, f)
        h.check((isinstance(v, list) and len(v) == 0) if is_many(kind) else v is None, label + ': ' + f)


# ------------------------------------------------------------------------------ R02: typed attributes
def bool_text(h, name):
    """(text, value): any capitalisation of true/false."""
    v = h.flag(name)
    w = 'true' if v else 'false'
    t = h.str(name + '_text', len(w), ok='trueTRUE' if v else 'falseFALSE')
    for i in range(len(w)):
        h.assume(h.any(h.eq(t[i], w[i]), h.eq(t[i], w[i].upper())))
    return t, v


def value_text(h, typ, name, n=2):
    if typ == 'str':
        t = h.str(name, n)
        return t, t
    if typ == 'bool':
        return bool_text(h, name)
    if typ == 'int':
        v = h.int(name)
        return h.numtext(v, 'int'), v
    v = h.float(name)
    h.assume(h.neg(h.isnan(v)))
    return h.numtext(v, 'dec'), v


def check_object(h, d, ident, m, label='object'):
    h.check(ident in d, label + ' is missing')
    x = d[ident]
    h.check(type(x) is cls(m), label + ' has the wrong class')
    h.check(h.eq(x.UUID, ident), label + ' has the wrong UUID')
    return x


def attributes(h, m, only=None):
    """Every attribute of a class, with any text its type admits; then none given; then all empty."""
    p = profile_of(m)
    ns, kw = how(p)
    w = Writer(ns)
    mode = h.choice('mode', 3)
    al = [a for a in attrs_of(m) if a[0] != 'UUID']
    kids, want = [], {}
    flip = mode == 0 and h.flag('reverse order')
    bools = []
    for a, (typ, d, enum) in al:
        owner = CLASSES[features(m)[a][0]]['name']
        if mode == 1:
            want[a] = d
        elif enum is not None:
            if mode == 0:
                lit = h.str('e_' + a, 2, ok='abzAZ09_')
                kids.append(w.enum(owner, a, enum, lit))
                want[a] = lit
            else:
                want[a] = d
        elif mode == 2:
            kids.append(w.attr(owner, a, None))
            want[a] = '' if typ == 'str' else d
        elif typ == 'bool':
            # one symbolic spelling for all of them: value alternates
            if not bools:
                bools.append(bool_text(h, 'bool'))
            kids.append(w.attr(owner, a, bools[0][0]))
            want[a] = bools[0][1]
        else:
            t, v = value_text(h, typ, 'v_' + a, 1)
            kids.append(w.attr(owner, a, t))
            want[a] = v
    if flip:
        kids = kids[::-1]
    w.obj(CLASSES[m]['name'], 'x1', kids)
    d = read(h, w.doc(), **kw)
    h.check(len(d) == 1, 'one object')
    x = check_object(h, d, 'x1', m)
    for a in want:
        h.check(h.eq(getattr(x, a), want[a]), 'value of %s' % a)
    untouched(h, x, m, set(want), 'not in the document')
    h.reach('attributes')


SPELL_INT = ['0', '-1', '+5', '007', ' 12\n', '123456789012345678901234567890', '-0', '10']
SPELL_FLOAT = ['0', '-1.5', '+5', '1e3', '1.5E-7', '.5', '3.', ' 2.5\n', '1e308', '-0.0', '123456789.123456789', '1e-310', 'INF'.lower(), '007.5']


def spelling(h, m, a, typ):
    """Fixed spellings of numbers (beside the arbitrary ones of `attributes`)."""
    ns, kw = how(profile_of(m))
    w = Writer(ns)
    tab = SPELL_INT if typ == 'int' else SPELL_FLOAT
    k = h.choice('spelling', len(tab))
    w.obj(CLASSES[m]['name'], 'x1', [w.attr(CLASSES[features(m)[a][0]]['name'], a, tab[k])])
    x = check_object(h, read(h, w.doc(), **kw), 'x1', m)
    h.check(h.eq(getattr(x, a), int(tab[k]) if typ == 'int' else float(tab[k])), 'value of %s' % a)
    h.reach('spelling')


def digits(h, m, a, n):
    """Integers: any string of digits with any sign, with leading zeros."""
    ns, kw = how(profile_of(m))
    w = Writer(ns)
    t = h.str('digits', n, ok='0123456789')
    sign = h.choice('sign', 3)
    w.obj(CLASSES[m]['name'], 'x1', [w.attr(CLASSES[features(m)[a][0]]['name'], a, ['', '-', '+'][sign] + t)])
    x = check_object(h, read(h, w.doc(), **kw), 'x1', m)
    v = 0
    for i in range(n):
        v = v * 10 + h.digit(t, i)
    h.check(h.eq(getattr(x, a), -v if sign == 1 else v), 'value of %s' % a)
    h.reach('digits')


def text(h, m, a, k, pad, tail):
    """A string attribute: k symbolic characters, `pad` plain ones, `tail` symbolic ones; kept exactly."""
    ns, kw = how(profile_of(m))
    w = Writer(ns)
    t = h.str('head', k) + 'x' * pad + h.str('tail', tail)
    w.obj(CLASSES[m]['name'], 'x1', [w.attr(CLASSES[features(m)[a][0]]['name'], a, t)])
    x = check_object(h, read(h, w.doc(), **kw), 'x1', m)
    h.check(h.eq(getattr(x, a), t), 'text kept exactly')
    h.reach('text')


def booleans(h, m, a, space=False):
    ns, kw = how(profile_of(m))
    w = Writer(ns)
    t, v = bool_text(h, 'b')
    if h.flag('digit'):
        t = '1' if v else '0'
    if space:
        t = h.str('before', h.choice('space before', 3), ok=' \n\t') + t + h.str('after', h.choice('space after', 3), ok=' \n\t')
    w.obj(CLASSES[m]['name'], 'x1', [w.attr(CLASSES[features(m)[a][0]]['name'], a, t)])
    x = check_object(h, read(h, w.doc(), **kw), 'x1', m)
    h.check(h.eq(getattr(x, a), v), 'truth value')
    h.reach('booleans')


def two_of_a_class(h, m):
    """Two objects of a class with different values: neither shows the other's."""
    p = profile_of(m)
    ns, kw = how(p)
    w = Writer(ns)
    want = []
    al = [a for a in attrs_of(m) if a[0] != 'UUID']
    skip = h.choice('left out', 3)
    for n in range(2):
        kids, vals = [], {}
        for k, (a, (typ, d, enum)) in enumerate(al):
            owner = CLASSES[features(m)[a][0]]['name']
            if (skip == n) and k % 2 == 0:
                vals[a] = d
                continue
            if enum is not None:
                vals[a] = h.str('e%d_%s' % (n, a), 1, ok='abzAZ09_')
                kids.append(w.enum(owner, a, enum, vals[a]))
            elif typ == 'bool':
                vals[a] = (n == 0)
                kids.append(w.attr(owner, a, 'true' if vals[a] else 'false'))
            else:
                t, vals[a] = value_text(h, typ, 'v%d_%s' % (n, a), 1)
                kids.append(w.attr(owner, a, t))
        w.obj(CLASSES[m]['name'], 'x%d' % n, kids)
        want.append(vals)
    d = read(h, w.doc(), **kw)
    h.check(len(d) == 2, 'two objects')
    for n in range(2):
        x = check_object(h, d, 'x%d' % n, m)
        for a in want[n]:
            h.check(h.eq(getattr(x, a), want[n][a]), 'value of %s' % a)
    h.reach('two objects')


def like_named(h, m1, m2, a):
    """Objects of two classes in one document whose features named `a` differ in kind or type: each goes by its own class."""
    ns, kw = how(profile_of(m1))
    w = Writer(ns)
    want, targets = [], []
    for n, m in enumerate((m1, m2)):
        owner, what, rec = features(m)[a]
        own = CLASSES[owner]['name']
        if what == 'ref':
            t = instance(rec[1], profile_of(m))
            w_ = 't%d' % n
            targets.append((w_, t))
            e = w.ref(own, a, w_)
            want.append(('ref', w_, rec))
        elif rec[2] is not None:
            lit = h.str('literal%d' % n, 1, ok='azAZ09')
            e = w.enum(own, a, rec[2], lit)
            want.append(('attr', lit, rec))
        else:
            t, v = value_text(h, rec[0], 'v%d' % n, 1)
            e = w.attr(own, a, t)
            want.append(('attr', v, rec))
        w.obj(CLASSES[m]['name'], 'x%d' % n, [e])
    es = w.elems[::-1] if h.flag('reversed') else w.elems[:]
    if h.flag('again'):
        es.append(Node(es[0].tag, [('{%s}about' % RDF, '#' + es[0].attrs[0][1])], SPACE, list(es[0].children)))
    ts = []
    for i, t in targets:
        ts.append(w.obj(CLASSES[t]['name'], i))
    d = read(h, w.doc(elems=es + ts), **kw)
    h.check(len(d) == 2 + len(ts), 'number of objects')
    for n, m in enumerate((m1, m2)):
        x = check_object(h, d, 'x%d' % n, m)
        kind, v, rec = want[n]
        if kind == 'attr':
            h.check(h.eq(getattr(x, a), v), 'value of %s' % a)
        else:
            y = check_object(h, d, v, dict(targets)[v], 'target')
            _linked(h, x, y, a, rec[0], rec[2], features(dict(targets)[v])[rec[2]][2][0] if rec[2] else None, 'reference %s' % a)
        untouched(h, x, m, {a}, 'beside %s' % a)
    h.reach('like named')


# ------------------------------------------------------------------------------ R04: enumerations
def enumerations(h, m, a):
    """The literal is what follows the last dot of the resource; it reaches this attribute of this object only."""
    ns, kw = how(profile_of(m))
    owner, _, (typ, dflt, enum) = features(m)[a]
    w = Writer(ns)
    lit = h.str('literal', 1 + h.choice('length', 5), ok='aAzZ09_-\u00e9')
    where = h.choice('resource', 4)
    res = [ns + '#' + enum + '.', 'http://example.com/v1.2/enum#' + enum + '.', ns + '#Other.Kind.', 'x' * 300 + '#' + enum + '.'][where] + lit
    e = Node('{%s#}%s.%s' % (ns, CLASSES[owner]['name'], a), [('{%s}resource' % RDF, res)], None, (), SPACE)
    twice = h.flag('stated twice')
    kids = [w.enum(CLASSES[owner]['name'], a, enum, 'earlier')] if twice else []
    kids.append(e)
    xs = [w.obj(CLASSES[m]['name'], 'x1', kids, about=h.flag('about')), w.obj(CLASSES[m]['name'], 'x2', [])]
    d = read(h, w.doc(elems=xs[::-1] if h.flag('order') else xs), **kw)
    h.check(len(d) == 2, 'two objects')
    x, y = check_object(h, d, 'x1', m), check_object(h, d, 'x2', m)
    h.check(h.eq(getattr(x, a), lit), 'literal of %s' % a)
    untouched(h, x, m, {a}, 'beside an enumeration')
    untouched(h, y, m, set(), 'other object')
    h.reach('enumerations')


# ------------------------------------------------------------------------------ R03: references
def _linked(h, a, b, f, kind, g, gkind, label):
    v = getattr(a, f)
    if is_many(kind):
        h.check(isinstance(v, list) and len([1 for o in v if o is b]) == 1, label)
    else:
        h.check(v is b, label)
    if g is not None:
        v = getattr(b, g)
        if is_many(gkind):
            h.check(isinstance(v, list) and len([1 for o in v if o is a]) == 1, label + ' (inverse)')
        else:
            h.check(v is a, label + ' (inverse)')


def references(h, m, t, f):
    """Object x of class m refers to n objects of class t; before or after them, on either or both sides."""
    p = profile_of(m)
    ns, kw = how(p)
    owner, _, (kind, target, g) = features(m)[f]
    gowner, gkind = None, None
    if g is not None:
        gowner, _, (gkind, _, _) = features(t)[g]
    n = h.choice('targets', 3) + 1 if is_many(kind) else 1
    order = h.choice('position', n + 1 if n < 3 else 2)
    sides = h.choice('sides', 3 if g is not None else 1)
    w = Writer(ns)
    mo, to = CLASSES[owner]['name'], CLASSES[gowner]['name'] if gowner else None
    dangling = h.flag('dangling')
    ids = ['t%d' % i for i in range(n)]
    kids = [w.ref(mo, f, i) for i in ids] if sides != 1 else []
    if sides == 0 and h.flag('repeated'):       # said again
        kids.append(w.ref(mo, f, ids[0]))
    if dangling:
        kids.insert(len(kids) // 2, w.ref(mo, f, 'nowhere'))
    x = w.obj(CLASSES[m]['name'], 'x1', kids)
    ts = [w.obj(CLASSES[t]['name'], i, [w.ref(to, g, 'x1')] if sides else []) for i in ids]
    es = ts[:]
    es.insert(order, x)
    d = read(h, w.doc(elems=es), **kw)
    h.check(len(d) == n + 1, 'number of objects')
    a = check_object(h, d, 'x1', m, 'source')
    bs = [check_object(h, d, i, t, 'target') for i in ids]
    for b in bs:
        _linked(h, a, b, f, kind, g, gkind, 'reference %s' % f)
    if is_many(kind):
        h.check(len(getattr(a, f)) == n, 'references %s: number' % f)
        if sides == 0:
            h.check(all(u is v for u, v in zip(getattr(a, f), bs)), 'references %s: order' % f)
    for b in bs:
        if g is not None and is_many(gkind):
            h.check(len(getattr(b, g)) == 1, 'inverse %s: number' % g)
    untouched(h, a, m, {f}, 'source')
    for b in bs:
        untouched(h, b, t, {g} if g else set(), 'target')
    h.reach('references')


def itself(h, m, f):
    """An object that refers to itself."""
    ns, kw = how(profile_of(m))
    owner, _, (kind, target, g) = features(m)[f]
    w = Writer(ns)
    kids = [w.ref(CLASSES[owner]['name'], f, 'x1')]
    if g is not None and g != f and h.flag('both ends'):
        kids.append(w.ref(CLASSES[features(m)[g][0]]['name'], g, 'x1'))
    x = w.obj(CLASSES[m]['name'], 'x1', kids)
    y = w.obj(CLASSES[m]['name'], 'x2')
    d = read(h, w.doc(elems=[x, y] if h.flag('order') else [y, x]), **kw)
    h.check(len(d) == 2, 'two objects')
    a = check_object(h, d, 'x1', m)
    _linked(h, a, a, f, kind, g, features(m)[g][2][0] if g else None, 'reference %s to itself' % f)
    if is_many(kind):
        h.check(len(getattr(a, f)) == 1, 'listed once')
    untouched(h, a, m, {f, g}, 'beside the reference')
    untouched(h, check_object(h, d, 'x2', m), m, set(), 'other object')
    h.reach('itself')


def dangling(h, m, f):
    """A reference to an object that is not in the document leaves the feature as it was."""
    ns, kw = how(profile_of(m))
    owner, _, (kind, target, g) = features(m)[f]
    w = Writer(ns)
    x = w.obj(CLASSES[m]['name'], 'x1', [w.ref(CLASSES[owner]['name'], f, h.str('where', 2, ok=IDCH, no='x'))])
    y = w.obj(CLASSES[m]['name'], 'x2', [])
    d = read(h, w.doc(), **kw)
    h.check(len(d) == 2, 'two objects')
    untouched(h, check_object(h, d, 'x1', m), m, set(), 'dangling reference')
    untouched(h, check_object(h, d, 'x2', m), m, set(), 'other object')
    h.reach('dangling')


# ------------------------------------------------------------------------------ symbolic identifiers
def ident(h, name, shape):
    if shape == -1:
        return name
    if shape == 0:
        return h.str(name, 1, ok=IDCH)
    if shape == 1:
        return h.str(name, 2, ok=IDCH)
    if shape == 2:
        return '_' + h.str(name, 1, ok=IDCH)
    if shape == 3:          # like a UUID: differs at the very end, the start and the middle
        return '_' + h.str(name + 'h', 1, ok=IDCH) + 'f81d4fae-7dec-11d0-a765-' + h.str(name + 'm', 1, ok=IDCH) + '0a0c91e6bf' + h.str(name + 't', 1, ok=IDCH)
    if shape == 5:
        return h.str(name, 3, ok=IDCH)
    if shape == 6:          # also as a suffix of one another
        k = h.choice('kind of ' + name, 4)
        return ['', '_', '_' * 2, 'urn:uuid:'][k] + h.str(name, 1, ok=IDCH)
    if shape == 7:          # also of different lengths
        return h.str(name, 1 + h.choice('length of ' + name, 3), ok='_#aA:0 ')
    if shape == 4:
        return 'n' * 80 + h.str(name, 1, ok=IDCH)
    raise ValueError(shape)


def identifiers(h, ms, shape, abouts=True):
    """Elements of the given classes with arbitrary distinct identifiers: one object each, under it."""
    p = profile_of(ms[0])
    ns, kw = how(p)
    w = Writer(ns)
    ids = [ident(h, 'id%d' % i, shape) for i in range(len(ms))]
    for i in range(len(ids)):
        for j in range(i):
            h.assume(h.neg(h.eq(ids[i], ids[j])))
    for m, i in zip(ms, ids):
        w.obj(CLASSES[m]['name'], i, [w.attr('IdentifiedObject', 'name', 'n of ' + i)] if h.flag('named') else [],
              about=abouts and h.flag('about'))
    d = read(h, w.doc(), **kw)
    h.check(isinstance(d, dict), 'a dictionary is returned')
    h.check(len(d) == len(ids), 'number of objects')
    for i, m in zip(ids, ms):
        x = check_object(h, d, i, m)
    for i in range(len(ids)):
        for j in range(i):
            h.check(d[ids[i]] is not d[ids[j]], 'distinct objects')
    h.reach('identifiers')


def unnamed(h, m):
    ns, kw = how(profile_of(m))
    w = Writer(ns)
    i = ident(h, 'id', 0)
    w.obj(CLASSES[m]['name'], i, about=h.flag('about'))
    d = read(h, w.doc(), **kw)
    h.check(len(d) == 1, 'one object')
    untouched(h, check_object(h, d, i, m), m, set(), 'fresh object')
    h.reach('unnamed')


def descriptions(h, m, shape):
    """rdf:about adds to the object that has this identifier, wherever it stands; attributes of the
    one element never reach another object."""
    ns, kw = how(profile_of(m))
    w = Writer(ns)
    tag = CLASSES[m]['name']
    i, j = ident(h, 'id', shape), ident(h, 'about', shape)
    n1, n2 = h.str('name', 1), h.str('alias', 1)
    w.obj(tag, i, [w.attr('IdentifiedObject', 'name', n1)])
    w.obj(tag, j, [w.attr('IdentifiedObject', 'aliasName', n2)], about=True)
    same = h.branch(h.eq(i, j))
    d = read(h, w.doc(order=[1, 0] if h.flag('description first') else [0, 1]), **kw)
    h.check(len(d) == (1 if same else 2), 'number of objects')
    x, y = check_object(h, d, i, m), check_object(h, d, j, m)
    h.check((x is y) == bool(same), 'identity')
    h.check(h.eq(x.name, n1), 'name')
    h.check(h.eq(y.aliasName, n2), 'alias')
    if not same:
        h.check(x.aliasName == '' and y.name == '', 'not given')
    h.reach('descriptions')


def merged(h, m, t, f, shape):
    """Reading into an existing dictionary keeps its objects, can describe them further and refer to them."""
    ns, kw = how(profile_of(m))
    w = Writer(ns)
    owner, _, (kind, _, g) = features(m)[f]
    i, j, k = [ident(h, n, shape) for n in ('old', 'new', 'to')]
    h.assume(h.neg(h.eq(i, j)))
    h.assume(h.any(h.eq(k, i), h.eq(k, j)))
    n1, n2 = h.str('name', 1), h.str('alias', 1)
    named = 'name' in features(t)
    old = cls(t)(UUID=i)
    if named:
        old.name = n1
    start = {}
    start[i] = old
    describe = named and h.flag('describe')
    w.obj(CLASSES[t]['name'], j, [])
    w.obj(CLASSES[m]['name'], 'zz' * 3 + 'x', [w.ref(CLASSES[owner]['name'], f, k)])
    if describe:
        w.obj(CLASSES[t]['name'], i, [w.attr('IdentifiedObject', 'aliasName', n2)], about=True)
    d = read(h, w.doc(order=None if h.flag('order') else list(range(len(w.elems)))[::-1]), start_dict=start, **kw)
    h.check(d is start, 'the given dictionary is returned')
    h.check(len(d) == 3, 'number of objects')
    h.check(d[i] is old, 'existing object kept')
    if named:
        h.check(h.eq(old.name, n1), 'existing value kept')
        h.check(h.eq(old.aliasName, n2 if describe else ''), 'further description')
    new = check_object(h, d, j, t)
    x = check_object(h, d, 'zz' * 3 + 'x', m)
    to_old = h.branch(h.eq(k, i))
    _linked(h, x, old if to_old else new, f, kind, g, features(t)[g][2][0] if g else None, 'reference')
    other = new if to_old else old
    if g:
        v = getattr(other, g)
        h.check(len(v) == 0 if isinstance(v, list) else v is None, 'the other object is not linked')
    h.reach('merged')


def network(h, m, t, f, shape, n):
    """n objects refer to one of n targets each, by symbolic identifiers: each link goes where its
    identifier says."""
    ns, kw = how(profile_of(m))
    owner, _, (kind, _, g) = features(m)[f]
    w = Writer(ns)
    ti = [ident(h, 't%d' % i, shape) for i in range(2)]
    h.assume(h.neg(h.eq(ti[0], ti[1])))
    to = [ident(h, 'r%d' % i, shape) for i in range(n)]
    xs, es = [], []
    if kind in ('11', '1N'):        # a target has one partner
        for i in range(n):
            for j in range(i):
                h.assume(h.neg(h.eq(to[i], to[j])))
    for i in range(n):
        es.append(w.obj(CLASSES[m]['name'], 'source-%d' % i, [w.ref(CLASSES[owner]['name'], f, to[i])]))
    ts = [w.obj(CLASSES[t]['name'], i, []) for i in ti]
    cut = h.choice('position', n + 1)
    d = read(h, w.doc(elems=es[:cut] + ts + es[cut:]), **kw)
    h.check(len(d) == n + 2, 'number of objects')
    tabs = [check_object(h, d, i, t) for i in ti]
    for i in range(n):
        x = check_object(h, d, 'source-%d' % i, m)
        hit = 0 if h.branch(h.eq(to[i], ti[0])) else 1 if h.branch(h.eq(to[i], ti[1])) else None
        want = None if hit is None else tabs[hit]
        got = getattr(x, f)
        if is_many(kind):
            h.check(len(got) == (want is not None) and (want is None or got[0] is want), 'reference')
        else:
            h.check(got is want, 'reference')
        if g and is_many(features(t)[g][2][0]):
            for b in tabs:
                h.check(len([1 for o in getattr(b, g) if o is x]) == (b is want), 'inverse')
    h.reach('network')


# ------------------------------------------------------------------------------ R05: what is not in the model
UNKNOWN = ['Bogus', 'terminal', 'Terminals', 'RDF', 'IdentifiedObject.name', 'Element']


def unknown(h, m, other='http://example.com/other#', n=1):
    """Unknown classes, unknown attributes and elements and attributes of other namespaces are skipped; nothing
    of them reaches the objects around them. n: how many of them."""
    p = profile_of(m)
    ns, kw = how(p)
    w = Writer(ns)
    tag = CLASSES[m]['name']
    a1, a2, leak = h.str('name1', 1), h.str('name2', 1), h.str('leak', 1)
    k1 = [w.attr('IdentifiedObject', 'name', a1)]
    k2 = [w.attr('IdentifiedObject', 'name', a2)]
    x1 = Node('{%s#}%s' % (ns, tag), [('{%s}ID' % RDF, 'x1')], SPACE, k1)
    x2 = Node('{%s#}%s' % (ns, tag), [('{%s}ID' % RDF, 'x2')], SPACE, k2)
    es = [x1, x2]

    def some(name, k):
        return h.choice(name, k) if n == 1 else 0
    for c in range(n):
        what = h.choice('what', 10)
        idl = 'u%d' % c
        nameless = [w.attr('IdentifiedObject', 'name', leak), w.attr('IdentifiedObject', 'aliasName', leak), w.attr('Bogus', 'name', leak)]
        extra = None
        at = h.choice('position', 2) if 1 <= what <= 3 or what in (6, 8) else 0
        if what == 0:           # object of an unknown class
            extra = w.obj(UNKNOWN[some('unknown', 4)], idl, nameless, about=h.flag('about'))
        elif what == 1:         # unknown attribute
            k1.insert(at, w.attr(['IdentifiedObject', tag, 'Bogus'][some('owner', 3)], ['bogus', 'Name', 'nam', 'names', ''][some('attr', 5)], leak))
        elif what == 2:         # unknown reference
            k1.insert(at, w.ref('IdentifiedObject', 'Bogus', 'x2'))
        elif what == 3:         # attribute in another namespace
            k1.insert(at, Node('{%s}IdentifiedObject.aliasName' % other, (), leak, (), SPACE))
        elif what == 4:         # object in another namespace, with an identifier
            extra = Node('{%s}%s' % (other, tag), [('{%s}%s' % (RDF, ['ID', 'about'][some('key', 2)]), idl)], SPACE,
                         [Node('{%s}IdentifiedObject.aliasName' % other, (), leak, (), SPACE)])
        elif what == 5:         # an element without namespace
            extra = Node('note', (), leak, ())
        elif what == 6:         # reference in another namespace
            k1.insert(at, Node('{%s}IdentifiedObject.aliasName' % other, [('{%s}resource' % RDF, '#x2')], None, (), SPACE))
        elif what == 7:         # reference to a skipped object
            extra = w.obj('Bogus', idl, nameless)
            fs = [(f, rec) for f, k, rec in refs_of(m)]
            for f, rec in fs[:3]:
                k1.append(w.ref('IdentifiedObject', f, idl))
        elif what == 8:         # unknown enumeration-like resource
            k1.insert(at, w.enum('IdentifiedObject', 'bogus', 'Kind', 'value'))
        elif what == 9:         # XML attributes of other namespaces
            on = [k1[0], x1, x2][some('on', 3)]
            on.attrs[c:c] = [[('{%s}datatype' % RDF, 'http://www.w3.org/2001/XMLSchema#string')],
                             [('{http://www.w3.org/XML/1998/namespace}lang', 'en')],
                             [('{%s}ID' % other, 'x2'), ('{%s}about' % other, '#x2'), ('{%s}resource' % other, '#x2')],
                             [('ID', 'x2'), ('resource', '#x2')]][h.choice('which', 4) if n == 1 else 2 + c]
        if extra is not None:
            es.insert(h.choice('where', len(es) + 1) if n == 1 else [1, 1, 2][h.choice('where', 3)], extra)
    doc = w.doc(elems=es, prefixes=[('rdf', RDF), ('cim', ns + '#'), ('o', other)])
    d = read(h, doc, **kw)
    h.check(len(d) == 2, 'number of objects')
    for i, v in (('x1', a1), ('x2', a2)):
        x = check_object(h, d, i, m)
        h.check(h.eq(x.name, v), 'name')
        untouched(h, x, m, {'name'}, 'beside an unknown element')
    h.reach('unknown')


INTERNAL = ['UUID', '_attrs', '_refs', '_defaults', '_many_refs', '_enums', '_attr_types', '__class__', '__dict__', '__doc__', '__init__']


def mismatched(h, m, every=False):
    """Statements that fit no feature of the class are skipped: names that belong to the implementation, texts for
    references, '#' resources for attributes, other resources for references and plain attributes."""
    p = profile_of(m)
    ns, kw = how(p)
    fs = features(m)
    tag = CLASSES[m]['name']
    own = sorted(a for a in fs if (every or fs[a][0] == m) and a not in shadowed_(m))
    refs = [a for a in own if fs[a][1] == 'ref']
    attrs = [a for a in own if fs[a][1] == 'attr' and a != 'UUID']
    verbs = ['_', 'add', 'get', 'set', 'remove', 'add_', 'remove_']
    names = INTERNAL + [q + f for k, f in enumerate(refs) for q in (verbs if every else [verbs[k % 7], verbs[(k + 3) % 7]])]
    names = [a for a in names if a not in fs or a == 'UUID']
    w = Writer(ns)
    leak = h.str('leak', 1)
    ext = [Node('x', [('{%s}resource' % RDF, r)]) for r in ('urn:uuid:x2', 'x2', '', 'http://example.com/doc#x2', 'http://example.com/E.x2')]
    kinds = [k for k, ok in (('name', True), ('ref', refs), ('attr', attrs)) if ok]
    kind = kinds[h.choice('kind', len(kinds))]
    if kind == 'name':
        a = names[h.choice('name', len(names))]
        forms = 4
    else:
        tab = refs if kind == 'ref' else attrs
        a = tab[h.choice('feature', len(tab))]
        forms = 7 if kind == 'ref' else 3
    form = h.choice('form', forms)
    layout = h.choice('layout', 3) if every else (len(a) + form) % 3
    owner = CLASSES[fs[a][0]]['name'] if kind != 'name' else tag
    if kind == 'name' or kind == 'ref':
        e = [w.attr(owner, a, leak), w.attr(owner, a, None)][form] if form < 2 else \
            w.ref(owner, a, 'x2') if kind == 'name' and form == 2 else w.enum(owner, a, 'Kind', 'leak') if kind == 'name' else \
            Node('{%s#}%s.%s' % (ns, owner, a), ext[form - 2].attrs, None, (), SPACE)
    else:
        enum = fs[a][2][2] is not None
        e = w.ref(owner, a, 'x2') if form == 0 else \
            Node('{%s#}%s.%s' % (ns, owner, a), ext[0 if enum or form == 1 else 4].attrs, None, (), SPACE)
    kids = [e]
    named = 'name' in fs and a != 'name'
    v = ''
    if named:
        v = h.str('name', 1)
        kids.insert(layout != 1, w.attr('IdentifiedObject', 'name', v))
    about = layout == 1
    es = [w.obj(tag, 'x1', kids, about=about), w.obj(tag, 'x2', [])]
    d = read(h, w.doc(elems=es[::-1] if layout == 2 else es), **kw)
    h.check(len(d) == 2, 'number of objects')
    x, y = check_object(h, d, 'x1', m), check_object(h, d, 'x2', m)
    if named:
        h.check(h.eq(x.name, v), 'name')
    untouched(h, x, m, {'name'} if named else set(), 'beside a statement that fits nothing')
    untouched(h, y, m, set(), 'other object')
    for c in lineage(m):
        h.check(isinstance(cls(c)._refs, list) and isinstance(cls(c)._defaults, dict), 'description of the class')
    z = cls(m)()
    untouched(h, z, m, set(), 'later object')
    h.reach('mismatched')


def shadowed_(m):
    return model.shadowed(m)


def conflicting(h, m, t, f, shape, n=2):
    """A single reference that is stated for several targets refers to the first; the other ones are left alone."""
    ns, kw = how(profile_of(m))
    owner, _, (kind, _, g) = features(m)[f]
    ids = [ident(h, 't%d' % i, shape) for i in range(n)]
    for i in range(n):
        for j in range(i):
            h.assume(h.neg(h.eq(ids[i], ids[j])))
    w = Writer(ns)
    said = [h.choice('stated', n + 1) for i in range(n + 1)]
    split = h.choice('split', len(said) + 1)
    refs = [w.ref(CLASSES[owner]['name'], f, ids[i] if i < n else 'nowhere') for i in said]
    es = [w.obj(CLASSES[m]['name'], 'source', refs[:split])]
    if split < len(refs):
        es.append(w.obj(CLASSES[m]['name'], 'source', refs[split:], about=True))
    ts = [w.obj(CLASSES[t]['name'], i) for i in ids]
    w.elems = es + ts if h.flag('first') else ts + es
    d = read(h, w.doc(), **kw)
    h.check(len(d) == n + 1, 'number of objects')
    x = check_object(h, d, 'source', m)
    real = [i for i in said if i < n]
    for i in range(n):
        y = check_object(h, d, ids[i], t)
        if real and real[0] == i:
            _linked(h, x, y, f, kind, g, features(t)[g][2][0] if g else None, 'first target')
        elif g:
            v = getattr(y, g)
            h.check(len(v) == 0 if isinstance(v, list) else v is None, 'target stated later')
    if not real:
        h.check(getattr(x, f) is None, 'no target')
    h.reach('conflicting')


PRIOR = {'str': [None, 7, 1.5, True], 'int': [None, 1.5, True, '7'], 'float': [None, 7, True, '7.5'], 'bool': [None, 1, 'x', 1.5]}


def prior(h, m, every=False):
    """Objects of the given dictionary whose attributes hold values of other types: what the document states
    comes in the type of the attribute, the other ones are kept."""
    ns, kw = how(profile_of(m))
    fs = features(m)
    al = [(a, rec) for a, rec in attrs_of(m) if a != 'UUID']
    own = [x for x in al if every or x[0] in CLASSES[m]['attrs']]
    x = cls(m)(UUID='x1')
    k = h.choice('value', 4)
    had = {}
    for a, (typ, d, enum) in al:
        had[a] = PRIOR[typ][k]
        setattr(x, a, had[a])
    a, (typ, d, enum) = own[h.choice('attribute', len(own))]
    w = Writer(ns)
    owner = CLASSES[fs[a][0]]['name']
    if enum is not None:
        want = h.str('literal', 2, ok='abzAZ09_')
        e = w.enum(owner, a, enum, want)
    else:
        t, want = value_text(h, typ, 'v', 1)
        e = w.attr(owner, a, t)
    w.obj(CLASSES[m]['name'], 'x1', [e], about=True)
    start = {'x1': x}
    r = read(h, w.doc(), start_dict=start, **kw)
    h.check(r is start and len(r) == 1 and r['x1'] is x, 'the given dictionary and object')
    h.check(h.eq(x.UUID, 'x1'), 'UUID')
    h.check(h.eq(getattr(x, a), want), 'stated value of %s' % a)
    for b, rec in al:
        if b != a:
            h.check(getattr(x, b) is had[b], 'kept value of %s' % b)
    h.reach('prior')


def header(h, m):
    """A header of another namespace (md:FullModel) before or after the objects is skipped."""
    ns, kw = how(profile_of(m))
    md = 'http://iec.ch/TC57/61970-552/ModelDescription/1#'
    w = Writer(ns)
    a = h.str('name', 1)
    x = w.obj(CLASSES[m]['name'], 'x1', [w.attr('IdentifiedObject', 'name', a)])
    hd = Node('{%s}FullModel' % md, [('{%s}about' % RDF, 'urn:uuid:' + h.str('urn', 1, ok=IDCH))], SPACE,
              [Node('{%s}Model.description' % md, (), h.str('d', 1), (), SPACE),
               Node('{%s}Model.DependentOn' % md, [('{%s}resource' % RDF, 'urn:uuid:1')], None, (), SPACE)])
    es = [hd, x] if h.flag('first') else [x, hd]
    pre = [('rdf', RDF), ('cim', ns + '#'), ('md', md)]
    pre = [pre, pre[::-1], [pre[2], pre[0], pre[1]]][h.choice('prefixes', 3)]
    d = read(h, w.doc(elems=es, prefixes=pre), **kw)
    h.check(len(d) == 1, 'one object')
    x = check_object(h, d, 'x1', m)
    h.check(h.eq(x.name, a), 'name')
    untouched(h, x, m, {'name'}, 'beside a header')
    h.reach('header')


# ------------------------------------------------------------------------------ R06: versions and profiles
def detect(h, tag):
    """The version is the one of the document's CIM namespace; unknown namespaces are read as CIM15."""
    k = h.choice('namespace', 5)
    if k == 0:
        ns = URI['CIM14']
    elif k == 1:
        ns = URI['CIM15']
    elif k == 2:
        ns = CIM16
    elif k == 3:
        ns = 'http://iec.ch/TC57/20' + h.str('year', 2, ok='0129') + '/CIM-schema-cim1' + h.str('version', 1, ok='0123456789')
    else:
        ns = 'http://example.com/' + h.str('other', 2, ok='abc/_#')
    if h.symbolic:
        is14 = h.branch(h.eq(ns, URI['CIM14']))
        is15 = not is14 and h.branch(h.eq(ns, URI['CIM15']))
    else:
        is14, is15 = ns == URI['CIM14'], ns == URI['CIM15']
    if h.symbolic and not isinstance(ns, str):
        pass
    v = 'CIM14' if is14 else 'CIM15'
    m = PKG[v].get(tag)
    i = h.str('id', 1, ok=IDCH)
    a = h.str('name', 1)
    base = '{' + ns + '#}'
    x = Node(base + tag, [('{%s}ID' % RDF, i)], SPACE, [Node(base + 'IdentifiedObject.name', (), a, (), SPACE)])
    rdf = h.flag('rdf prefix')
    pre = [('rdf' if rdf else 'r', RDF), ('cim', ns + '#'), ('xs', 'http://www.w3.org/2001/XMLSchema#')]
    pre = [pre, pre[::-1]][h.choice('prefixes', 2)]
    d = read(h, Doc(pre, Node('{%s}RDF' % RDF, (), '\n', [x], None)))
    if m is None:
        h.check(len(d) == 0, 'class of the other version skipped')
    else:
        h.check(len(d) == 1, 'one object')
        o = check_object(h, d, i, m + '.' + tag)
        h.check(h.eq(o.name, a), 'name')
    h.reach('detect')


def explicit(h, p):
    """packageMap and nsURI given together decide, whatever the document's prefixes say."""
    tags = sorted(PKG[p])
    mod = importlib.import_module(p)
    k = h.choice('class', len(tags))
    tag = tags[k]
    m = PKG[p][tag] + '.' + tag
    nsk = h.choice('namespace', 3)
    ns = URI[p] if nsk == 0 else 'http://example.com/profile' if nsk == 1 else URI['CIM15' if p.startswith('CIM14') else 'CIM14']
    other = 'http://iec.ch/TC57/2009/CIM-schema-cim1' + h.str('version', 1, ok='0456789')
    declared = h.flag('declared otherwise')
    pre = [('rdf', RDF), ('cim', (other if declared else ns) + '#'), ('p', ns + '#')]
    x = Node('{%s#}%s' % (ns, tag), [('{%s}ID' % RDF, 'x1')], None, [])
    d = read(h, Doc(pre, Node('{%s}RDF' % RDF, (), '\n', [x], None)), packageMap=mod.packageMap, nsURI=ns)
    h.check(len(d) == 1, 'one object')
    check_object(h, d, 'x1', m)
    h.reach('explicit')


def in_turn(h, p, q):
    """Documents read with one table after another: each goes by the table it is read with, also under one namespace."""
    both = sorted(t for t in PKG[p] if t in PKG[q] and PKG[p][t] != PKG[q][t])
    only = sorted(t for t in PKG[p] if t not in PKG[q])
    tags = both[::max(1, len(both) // 6)] + only[:1]
    tag = tags[h.choice('class', len(tags))]
    common = h.flag('one namespace')
    turns = [p, q, p] if h.flag('first goes first') else [q, p, q]
    seen = []
    for n, v in enumerate(turns):
        ns, kw = how(v)
        if common or not kw and h.flag('explicit'):
            ns = URI[p] if common else ns
            kw = dict(packageMap=importlib.import_module(v).packageMap, nsURI=ns)
        w = Writer(ns)
        i = h.str('id%d' % n, 1, ok='ab')
        w.obj(tag, i)
        w.obj(tag, 'second')
        d = read(h, w.doc(), **kw)
        m = PKG[v].get(tag)
        if m is None:
            h.check(len(d) == 0, 'class of the other table skipped in read %d' % n)
            continue
        h.check(len(d) == 2, 'number of objects of read %d' % n)
        for x in (i, 'second'):
            x = check_object(h, d, x, m + '.' + tag, 'object of read %d' % n)
            h.check(not any(x is y for y in seen), 'reads are separate')
            seen.append(x)
    h.reach('in turn')


def one_of_two(h, p):
    """A profile map without a namespace, or a namespace without a map, is refused."""
    mod = importlib.import_module(p)
    w = Writer(URI[p])
    w.obj(sorted(PKG[p])[0], 'x1')
    ns = 'http://x/' + h.str('ns', 1, ok='abc')
    which = h.choice('which', 4)
    kw = [dict(packageMap=mod.packageMap), dict(nsURI=ns), dict(packageMap=mod.packageMap, nsURI=None),
          dict(packageMap=None, nsURI=ns)][which]
    start = {}
    try:
        read(h, w.doc(), start_dict=start, **kw)
        refused = False
    except ValueError:
        refused = True
    h.check(refused, 'half a profile is refused')
    h.check(len(start) == 0, 'nothing was read')
    h.reach('one of two')


def importable(h, m, failed):
    """A class of the tables that did not import."""
    if h.symbolic:
        h.check(not failed, 'the class can be imported')
        return
    ok = True
    try:
        getattr(importlib.import_module(m), CLASSES[m]['name'])
    except Exception:
        ok = False
    h.check(ok, 'the class can be imported')


def maps(h, p):
    """The class table of a version or profile is complete and right."""
    mod = importlib.import_module(p)
    h.check(mod.nsURI == URI[p], 'namespace of %s' % p)
    for t in sorted(PKG[p]):
        h.check(mod.packageMap.get(t) == PKG[p][t], 'package of %s in %s' % (t, p))
    h.check(len(mod.packageMap) == len(PKG[p]), 'number of classes of %s' % p)
    h.reach('maps')


# ------------------------------------------------------------------------------ R07: sources and independence
def sources(h, m, t, f):
    """Paths, binary and text streams give the same objects."""
    ns, kw = how(profile_of(m))
    owner, _, (kind, _, g) = features(m)[f]
    w = Writer(ns)
    i, a = h.str('id', 1, ok=IDCH), h.str('name', 2)
    w.obj(CLASSES[m]['name'], 'source', [w.attr('IdentifiedObject', 'name', a), w.ref(CLASSES[owner]['name'], f, i)])
    w.obj(CLASSES[t]['name'], i, [])
    from PyCIM import cimread
    src = source(h, w.doc(), ['stream', 'text', 'path', 'named'][h.choice('kind', 4)])
    d = cimread(src, **kw)
    h.check(isinstance(src, str) or (src.pos is not None if h.symbolic else not src.closed), 'the stream is left open')
    h.check(len(d) == 2, 'two objects')
    x, y = check_object(h, d, 'source', m), check_object(h, d, i, t)
    h.check(h.eq(x.name, a), 'name')
    _linked(h, x, y, f, kind, g, features(t)[g][2][0] if g else None, 'reference')
    h.reach('sources')


def independent(h, m, t, f, m2):
    """Two reads share nothing, whatever was read before (other identifiers, other version)."""
    res = []
    ids, names = [], []
    for n, (a, b) in enumerate(((m, t), (m2, None), (m, t))):
        ns, kw = how(profile_of(a))
        w = Writer(ns)
        i = h.str('id%d' % n, 1, ok='ab')
        v = h.str('name%d' % n, 1, ok='ab')
        w.obj(CLASSES[a]['name'], i, [w.attr('IdentifiedObject', 'name', v)] if n == 0 or h.flag('named') else [])
        given = bool(w.elems[-1].children)
        if b:
            owner, _, (kind, _, g) = features(m)[f]
            w.elems[-1].children.append(w.ref(CLASSES[owner]['name'], f, 'target'))
            if n == 0 or h.flag('target'):
                w.obj(CLASSES[b]['name'], 'target')
        d = read(h, w.doc(), kind='path' if h.flag('path') else 'stream', **kw)
        res.append((d, i, v if given else '', a, len(w.elems)))
        ids.append(i)
    for n, (d, i, v, a, k) in enumerate(res):
        h.check(len(d) == k, 'number of objects of read %d' % n)
        x = check_object(h, d, i, a, 'object of read %d' % n)
        h.check(h.eq(x.name, v), 'name in read %d' % n)
        if n != 1:
            got = getattr(x, f)
            if k == 2:
                y = check_object(h, d, 'target', t, 'target of read %d' % n)
                _linked(h, x, y, f, kind, g, features(t)[g][2][0] if g else None, 'reference of read %d' % n)
                if g and is_many(features(t)[g][2][0]):
                    h.check(len(getattr(y, g)) == 1, 'inverse of read %d' % n)
            else:
                h.check(got is None or isinstance(got, list) and len(got) == 0, 'dangling reference of read %d' % n)
        for e in range(n):
            h.check(res[e][0] is not d and res[e][0][res[e][1]] is not x, 'reads %d and %d are separate' % (e, n))
    h.reach('independent')


def reused(h, m, m2):
    """The same path or stream read again after its content has changed gives the new content."""
    src = {}
    kind = ['path', 'stream'][h.choice('kind', 2)]
    order = [m, m2, m] if h.flag('three') else [m, m2]
    seen = []
    for n, k in enumerate(order):
        ns, kw = how(profile_of(k))
        if h.flag('explicit'):
            p = 'CIM14' if k.startswith('CIM14') else 'CIM15'
            kw = kw or dict(packageMap=importlib.import_module(p).packageMap, nsURI=ns)
        w = Writer(ns)
        i = h.str('id%d' % n, 1, ok='ab')
        v = h.str('name%d' % n, 1)
        w.obj(CLASSES[k]['name'], i, [w.attr('IdentifiedObject', 'name', v)])
        if h.flag('second object'):
            w.obj(CLASSES[k]['name'], 'second', [])
        from PyCIM import cimread
        d = cimread(source(h, w.doc(), kind, reuse=src), **kw)
        h.check(len(d) == len(w.elems), 'number of objects of read %d' % n)
        x = check_object(h, d, i, k, 'object of read %d' % n)
        h.check(h.eq(x.name, v), 'name in read %d' % n)
        for e, y in seen:
            h.check(e is not d and y is not x, 'reads are separate')
        seen.append((d, x))
    h.reach('reused')


# ------------------------------------------------------------------------------ R09: what cannot be read
REPORTED = (ParseError, SourceFailed, ValueError, OSError)


def snapshot(x, m):
    s = {}
    for a in features(m):
        v = getattr(x, a)
        s[a] = tuple(v) if isinstance(v, list) else v
    return s


def same_snapshot(h, before, after, label):
    for a in before:
        v, w = before[a], after[a]
        if isinstance(v, tuple):
            h.check(isinstance(w, tuple) and len(v) == len(w) and all(p is q for p, q in zip(v, w)), '%s: %s' % (label, a))
        elif v is None or hasattr(type(v), '_refs'):
            h.check(w is v, '%s: %s' % (label, a))
        else:
            h.check(h.eq(v, w), '%s: %s' % (label, a))


def broken(h, m, t, f, start):
    """A document that breaks off, is garbled or whose source fails after any tag: the caller gets an error, the
    objects that were there are as they were, and the next read is complete."""
    ns, kw = how(profile_of(m))
    owner, _, (kind, _, g) = features(m)[f]
    gkind = features(t)[g][2][0] if g else None
    a, b = h.str('name', 1), h.str('earlier name', 1)

    def document():
        w = Writer(ns)
        w.obj(CLASSES[m]['name'], 'x1', [w.attr('IdentifiedObject', 'name', a), w.ref(CLASSES[owner]['name'], f, 't1')])
        w.obj(CLASSES[t]['name'], 't1')
        if start:
            w.obj(CLASSES[m]['name'], 'x0', [w.attr('IdentifiedObject', 'name', a)], about=True)
        return w.doc()
    bad = document()
    way = ['cut', 'garbled', 'fails'][h.choice('way', 3)]
    bad.broken = (h.choice('tags', bad.tags()), way)
    src = {}
    skind = 'path' if way != 'fails' and h.flag('path') else 'stream'
    d, old = {}, []
    if start:
        x0, t0 = cls(m)(UUID='x0', name=b), cls(t)(UUID='t0')
        setattr(x0, f, [t0] if is_many(kind) else t0)
        d.update(x0=x0, t0=t0)
        old = [(x0, m, snapshot(x0, m)), (t0, t, snapshot(t0, t))]
    from PyCIM import cimread
    args = dict(kw, start_dict=d) if start else kw
    again = way != 'fails' and h.flag('same source')
    try:
        cimread(source(h, bad, skind, reuse=src if again else None), **args)
        reported = False
    except REPORTED:
        reported = True
    h.check(reported, 'a document that cannot be read is reported')
    for x, k, s in old:
        h.check(d.get(x.UUID) is x, 'objects of the given dictionary are kept')
        same_snapshot(h, s, snapshot(x, k), 'objects of the given dictionary are as before')
    e = cimread(source(h, document(), skind, reuse=src if again else None), **args)
    h.check(len(e) == 2 + len(old), 'number of objects read afterwards')
    x, y = check_object(h, e, 'x1', m), check_object(h, e, 't1', t)
    h.check(h.eq(x.name, a), 'name read afterwards')
    _linked(h, x, y, f, kind, g, gkind, 'reference read afterwards')
    h.check(len(getattr(y, g)) == 1 if g and is_many(gkind) else True, 'inverse read afterwards')
    if start:
        h.check(e is d and e['x0'] is x0 and h.eq(x0.name, a), 'further description read afterwards')
        _linked(h, x0, t0, f, kind, g, gkind, 'earlier reference')
    h.reach('broken')


# ------------------------------------------------------------------------------ R10: reads under way at once
def one_document(h, n, m, t, f, ident, name):
    """A document with an object that is named, refers to another and has an unknown feature; what reading it must give."""
    ns, kw = how(profile_of(m))
    owner, _, (kind, _, g) = features(m)[f]
    w = Writer(ns)
    ids = [ident, ident + 't%d' % n]
    w.obj(CLASSES[m]['name'], ids[0], [w.attr('IdentifiedObject', 'name', name), w.attr('Bogus', 'bogus', name),
                                       w.ref(CLASSES[owner]['name'], f, ids[1])])
    w.obj(CLASSES[t]['name'], ids[1])
    if n:
        w.obj(CLASSES[m]['name'], ids[0], [w.attr('IdentifiedObject', 'aliasName', name)], about=True)

    def right(d):
        h.check(len(d) == 2, 'number of objects of read %d' % n)
        x, y = check_object(h, d, ids[0], m), check_object(h, d, ids[1], t)
        h.check(h.eq(x.name, name), 'name of read %d' % n)
        h.check(h.eq(x.aliasName, name if n else ''), 'further description of read %d' % n)
        _linked(h, x, y, f, kind, g, features(t)[g][2][0] if g else None, 'reference of read %d' % n)
        untouched(h, x, m, {f, 'name', 'aliasName'}, 'source of read %d' % n)
        untouched(h, y, t, {g} if g else set(), 'target of read %d' % n)
    return w.doc(), kw, right


def at_once(h, m, t, f, m2, t2, f2, lo, hi, pauses):
    """Two reads in two threads: the first up to any tag, the second up to any tag, then each to its end. Both are as
    they would be alone."""
    from PyCIM import cimread
    from symx.sched import Two
    i = [h.str('id%d' % n, 1, ok='ab') for n in range(2)]
    v = [h.str('name%d' % n, 1, ok='ab') for n in range(2)]
    two = Two(lo + h.choice('first', hi - lo), pauses[h.choice('second', len(pauses))])
    a, kw, right = one_document(h, 0, m, t, f, i[0], v[0])
    b, kw2, right2 = one_document(h, 1, m2, t2, f2, i[1], v[1])
    a.point, b.point = two.points(0), two.points(1)
    d, e = two.run(lambda: cimread(source(h, a), **kw), lambda: cimread(source(h, b), **kw2))
    h.check(d is not e, 'reads are separate')
    right(d)
    right2(e)
    h.check(not any(x is y for x in d.values() for y in e.values()), 'reads are separate')
    h.reach('at once' if two.n[0] > two.k[0] else 'after')


NUMBER = '0123456789+-._eE xnaif\n,;/%\'"()jJlLbo'


def malformed(h, m, a, typ, n, ok=NUMBER):
    """A text that is no number never becomes a value: an error, or the default stays."""
    ns, kw = how(profile_of(m))
    dflt = features(m)[a][2][1]
    w = Writer(ns)
    t = h.str('text', n, ok=ok)
    w.obj(CLASSES[m]['name'], 'x1', [w.attr(CLASSES[features(m)[a][0]]['name'], a, t)])
    try:
        v = h.number(t, typ)
        good = True
    except ValueError:
        good = False
    try:
        d = read(h, w.doc(), **kw)
    except REPORTED:
        h.check(not good, 'numbers are read')
        h.reach('reported')
        return
    x = check_object(h, d, 'x1', m)
    h.check(h.eq(getattr(x, a), v if good else dflt), 'value of %s' % a)
    h.reach('read')


def parts(h, m, t, f, shape, n=2, many=False):
    """A model read in two documents, one after the other into one dictionary, is the model read as one
    document, if the first document does not refer to the second."""
    ns, kw = how(profile_of(m))
    owner, _, (kind, _, g) = features(m)[f]
    ids = [ident(h, 't%d' % i, shape) for i in range(n)]
    for i in range(n):
        for j in range(i):
            h.assume(h.neg(h.eq(ids[i], ids[j])))
    to = [h.choice('to', n + 1) for i in range(n)]
    if kind in ('11', '1N'):
        h.assume(len(set(x for x in to if x < n)) == len([x for x in to if x < n]))
    v = [h.str('name%d' % i, 1) for i in range(n)]
    named = 'name' in features(m)
    where = [h.flag('source in the first') for i in range(n)]
    tw = [h.flag('target in the first') for i in range(n)]
    more = h.choice('further description', 3)
    for i in range(n):
        if where[i] and to[i] < n:
            h.assume(tw[to[i]])
    if more == 1:
        h.assume(tw[0])

    def part(which):
        w = Writer(ns)
        for i in range(n):
            if tw[i] in which:
                w.obj(CLASSES[t]['name'], ids[i])
        for i in range(n):
            if where[i] in which:
                kids = [w.attr('IdentifiedObject', 'name', v[i])] if named else []
                if to[i] < n:
                    kids.append(w.ref(CLASSES[owner]['name'], f, ids[to[i]]))
                w.obj(CLASSES[m]['name'], 'source-%d' % i, kids)
        if more == 1 and False in which and 'aliasName' in features(t):
            w.obj(CLASSES[t]['name'], ids[0], [w.attr('IdentifiedObject', 'aliasName', 'described')], about=True)
        if more == 2 and False in which and where[0] and named:
            w.obj(CLASSES[m]['name'], 'source-0', [w.attr('IdentifiedObject', 'aliasName', 'described')], about=True)
        return w.doc()
    whole = read(h, part((True, False)), **kw)
    d = read(h, part((True,)), **kw)
    first = dict(d)
    e = read(h, part((False,)), start_dict=d, **kw)
    h.check(e is d, 'the given dictionary is returned')
    for i in list(first):
        h.check(d[i] is first[i], 'objects of the first document are kept')
    h.check(len(e) == len(whole), 'number of objects')
    for i in list(whole):
        h.check(i in e, 'object is missing')
        x, y = whole[i], e[i]
        h.check(type(x) is type(y), 'class')
        mm = m if type(x) is cls(m) else t
        for a, (typ, dflt, enum) in attrs_of(mm):
            h.check(h.eq(getattr(x, a), getattr(y, a)), 'attribute %s' % a)
        for r, k, rec in refs_of(mm):
            p, q = getattr(x, r), getattr(y, r)
            p, q = [[o.UUID for o in (s if isinstance(s, list) else [] if s is None else [s])] for s in (p, q)]
            h.check(len(p) == len(q), 'number of references %s' % r)
            for o in p:
                h.check(h.any(*[h.eq(o, u) for u in q]), 'reference %s' % r)
    h.reach('parts')


def filed(h, m, t, f, shape):
    """A given dictionary whose keys are not the UUIDs of its objects: the document refers to them and describes
    them by their keys, and finds each of them."""
    ns, kw = how(profile_of(m))
    owner, _, (kind, _, g) = features(m)[f]
    ids = [ident(h, 'key%d' % i, shape) for i in range(2)]
    h.assume(h.neg(h.eq(ids[0], ids[1])))
    uu = [['', h.str('uuid0', 1, ok='ab')], ['', h.str('uuid1', 1, ok='ab'), ids[0]]]
    uu = [uu[0][h.choice('uuid of the first', 2)], uu[1][h.choice('uuid of the second', 3)]]
    ts = [cls(t)(UUID=u) for u in uu]
    start = {}
    for i in range(2):
        start[ids[i]] = ts[i]
    many = is_many(kind)
    to = [h.choice('to%d' % i, 2) for i in range(2)]
    h.assume(many or to == [0, 0] or to == [1, 1])
    w = Writer(ns)
    kids = [w.ref(CLASSES[owner]['name'], f, ids[k]) for k in to]
    for i in ids:
        h.assume(h.neg(h.eq(i, 'xx-x')))
    w.obj(CLASSES[m]['name'], 'xx-x', kids)
    more = h.choice('described', 3)
    v = h.str('alias', 1)
    a = [a for a in attrs_of(t) if a[1][0] == 'str' and a[1][2] is None and a[0] != 'UUID'][:1]
    if more < 2 and a:
        w.obj(CLASSES[t]['name'], ids[more], [w.attr(CLASSES[features(t)[a[0][0]][0]]['name'], a[0][0], v)], about=True)
    d = read(h, w.doc(), start_dict=start, **kw)
    h.check(d is start and len(d) == 3, 'dictionary')
    x = check_object(h, d, 'xx-x', m)
    got = getattr(x, f) if many else [getattr(x, f)]
    want = [ts[k] for n, k in enumerate(to) if k not in to[:n]]
    h.check(len(got) == len(want) and all(p is q for p, q in zip(got, want)), 'references')
    for i in range(2):
        h.check(d[ids[i]] is ts[i], 'object kept')
        h.check(h.eq(ts[i].UUID, uu[i]), 'UUID kept')
        if a:
            h.check(h.eq(getattr(ts[i], a[0][0]), v if more == i else a[0][1][1]), 'description')
        if g:
            o = getattr(ts[i], g)
            o = o if isinstance(o, list) else [o] if o is not None else []
            h.check(len(o) == (i in to) and all(p is x for p in o), 'inverse')
    h.reach('filed')


def large(h, m, t, f, n):
    """Many objects, each with a name and a reference to the next but one target."""
    ns, kw = how(profile_of(m))
    owner, _, (kind, _, g) = features(m)[f]
    w = Writer(ns)
    k = h.choice('special', 3)
    pos = [0, n // 2, n - 1][k]
    a = h.str('name', 1)
    es = []
    q = 1 if kind in ('11', '1N') else 3        # objects that share a target
    named = 'name' in features(t)
    for i in range(n):
        es.append(w.obj(CLASSES[m]['name'], 'x%d' % i, [w.attr('IdentifiedObject', 'name', a if i == pos else 'n%d' % i),
                                                        w.ref(CLASSES[owner]['name'], f, 't%d' % (i // q))]))
    ts = [w.obj(CLASSES[t]['name'], 't%d' % i, [w.attr('IdentifiedObject', 'name', 'm%d' % i)] if named else []) for i in range(n // q + 1)]
    where = h.choice('order', 3)
    es = es + ts if where == 0 else ts + es if where == 1 else es[:pos] + ts + es[pos:]
    d = read(h, w.doc(elems=es), **kw)
    h.check(len(d) == len(es), 'number of objects')
    for i in range(n):
        x = check_object(h, d, 'x%d' % i, m)
        h.check(h.eq(x.name, a if i == pos else 'n%d' % i), 'name')
        y = check_object(h, d, 't%d' % (i // q), t)
        _linked(h, x, y, f, kind, g, features(t)[g][2][0] if g else None, 'reference')
    for i in range(n // q + 1):
        y = d['t%d' % i]
        h.check(not named or y.name == 'm%d' % i, 'name of target')
        if g and is_many(features(t)[g][2][0]):
            h.check(len(getattr(y, g)) == len(range(i * q, min(n, i * q + q))), 'number of inverse references')
    h.reach('large')


# ------------------------------------------------------------------------------ R11: what is left out is reported
class Log(logging.Handler):
    """The messages of level warning and above while it is entered."""

    def __init__(self):
        logging.Handler.__init__(self)
        self.said = []

    def handle(self, record):
        if record.levelno >= logging.WARNING:
            self.said.append((record.msg, record.args))

    def __enter__(self):
        self.level_ = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        logging.getLogger().addHandler(self)
        return self

    def __exit__(self, *ex):
        logging.getLogger().removeHandler(self)
        logging.disable(self.level_)

    def texts(self):
        return [msg % args if args else msg for msg, args in self.said]


def reported(h, m, t, f, shape, n=1, first=None):
    """Each thing that is left out is named in a message; a document nothing of which is left out causes none.
    n: how many things are left out."""
    p = profile_of(m)
    ns, kw = how(p)
    w = Writer(ns)
    tag, tag2 = CLASSES[m]['name'], CLASSES[t]['name']
    owner = CLASSES[features(m)[f][0]]['name']
    ids = [ident(h, 'missing%d' % k, shape) for k in range(n)]
    for k in range(n):
        for o in ['x1', 'x2'] + ids[:k]:
            h.assume(h.neg(h.eq(ids[k], o)))
    kids, kids2 = [w.ref(owner, f, 'x2')], []
    a = [a for a in attrs_of(m) if a[1][0] == 'str' and a[1][2] is None and a[0] != 'UUID'][:1]
    for name, rec in a:
        kids.append(w.attr(CLASSES[features(m)[name][0]]['name'], name, h.str('value', 1)))
    want, es, names = [], [], {}
    for k in range(n):
        i = ids[k]
        what = first if k == 0 and first is not None else h.choice('what', 6 if n == 1 else 5)
        at = 0 if what == 5 else h.choice('position', len(kids) + 1) if n == 1 else [0, len(kids)][h.choice('position', 2)]
        if what == 0:
            unk = ['Bogus', 'Bogus2'][k]
            es.append(Node('{%s#}%s' % (ns, unk), [('{%s}%s' % (RDF, 'ID'), i)], SPACE, [w.attr('Bogus', 'name', 'x')]))
            want.append(([unk, i], 1))
        elif what == 1:
            count = h.choice('count', 3) + 1 if n == 1 else 1
            c = h.choice('class', 2)
            no = 'bogus' if n == 1 else ['bogus', 'wrong'][h.choice('which name', 2)]
            (kids2 if c else kids)[at:at] = [w.attr(tag, no, 'x')] * count
            names[no, c] = names.get((no, c), 0) + count
        elif what == 2:
            kids.insert(at, w.ref(owner, f, i))
            want.append(([i], 1))
        elif what == 3:
            kids.insert(at, w.attr(owner, f, 'x'))
            want.append(([f], 1))
        elif what == 4 and a:
            kids.insert(at, w.ref(owner, a[0][0], 'x2'))
            want.append(([a[0][0]], 1))
    for no, c in sorted(names):
        want.append(([no, tag2 if c else tag], names[no, c]))
    x = w.obj(tag, 'x1', kids)
    y = w.obj(tag2, 'x2', kids2)
    es = es + [x, y] if h.flag('first') else [y, x] + es
    with Log() as log:
        d = read(h, w.doc(elems=es), **kw)
    h.check(len(d) == 2, 'number of objects')
    texts = log.texts()
    if not want:
        h.check(len(texts) == 0, 'a message although nothing is left out')
    for ns_, count in want:
        hits = [s for s in texts if all(o in s for o in ns_)]
        h.check(len(hits) > 0, 'what is left out is not reported')
        if count > 1:
            h.check(len(hits) >= count or any(str(count) in s for s in hits), 'how often')
    h.reach('reported')
