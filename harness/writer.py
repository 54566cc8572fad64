"""Writing documents: cimwrite (W01-W03, W05) and XMLWriter (W04)."""
from harness import model
from harness.model import CLASSES, SPEC, features, cls, is_many, lineage, ALIAS, IMPEDANCE, new, shadowed
from harness.frame import attrs_of, refs_of, symval
from symx.xmldoc import Doc, Node, RDF
from symx.xmltok import Output, tree

SOURCE_MODES = ('plain',)
ID, RES = '{%s}ID' % RDF, '{%s}resource' % RDF
IDCH = 'aAb_-.09\u00e9'


def ns_of(m):
    return SPEC['nsURI'][m.split('.')[0]]


def write(h, d, kind='sink', **kw):
    from PyCIM import cimwrite
    out = Output(h, kind)
    cimwrite(d, out.target, **kw)
    return out


def elements(h, out, ns):
    """[(local name, element)] of the objects in the document; checks the frame of the document."""
    doc = tree(h, out)
    h.check(doc.root.tag == '{%s}RDF' % RDF, 'root element')
    h.check(all(k.tag.startswith('{%s#}' % ns) for k in doc.root.children), 'CIM namespace')
    pre = dict(doc.prefixes)
    h.check(h.eq(pre.get('cim', ''), ns + '#'), 'cim prefix declared')
    h.check(h.eq(pre.get('rdf', ''), RDF), 'rdf prefix declared')
    return [(k.tag[len(ns) + 3:], k) for k in doc.root.children]


def get(node, key):
    for k, v in node.attrs:
        if k == key:
            return v
    return None


def denotes(h, text, typ, value):
    """The text of an attribute element denotes this value."""
    if typ == 'str':
        return h.eq(text if text is not None else '', value)
    if text is None:
        return False
    if typ == 'bool':
        return h.any(h.all(value, h.eq(text, 'True')), h.all(h.neg(value), h.eq(text, 'False')),
                     h.all(value, h.eq(text, 'true')), h.all(h.neg(value), h.eq(text, 'false')))
    return h.eq(h.number(text, typ), value)


def stated(h, node, m, ns):
    """What an object element states: ({attribute: text}, {enumeration: resource}, [(reference, identifier)])."""
    feats = features(m)
    attrs, enums, refs = {}, {}, []
    for c in node.children:
        h.check(c.tag.startswith('{%s#}' % ns), 'namespace of a feature')
        owner, _, a = c.tag[len(ns) + 3:].rpartition('.')
        h.check(a in feats, 'feature %s is not in the model' % a)
        k, what, rec = feats[a]
        h.check(any(CLASSES[q]['name'] == owner and (a in CLASSES[q]['attrs'] or a in CLASSES[q]['refs']) for q in lineage(m)),
                'owner of %s' % a)
        h.check(len(c.children) == 0, 'feature %s has no elements in it' % a)
        r = get(c, RES)
        if what == 'ref':
            h.check(r is not None and c.text is None and len(c.attrs) == 1, 'reference %s is a resource' % a)
            h.check(h.eq(r[:1], '#'), 'resource of %s' % a)
            if not is_many(rec[0]):
                h.check(all(x[0] != a for x in refs), 'reference %s once' % a)
            refs.append((a, r[1:]))
        elif rec[2] is not None:
            h.check(r is not None and c.text is None and len(c.attrs) == 1, 'enumeration %s is a resource' % a)
            h.check(a not in enums, 'enumeration %s once' % a)
            enums[a] = r
        else:
            h.check(r is None and len(c.attrs) == 0, 'attribute %s is text' % a)
            h.check(a not in attrs, 'attribute %s once' % a)
            attrs[a] = c.text
    return attrs, enums, refs


def check_attrs(h, attrs, enums, m, ns, want):
    for a, (typ, dflt, enum) in attrs_of(m):
        if a == 'UUID':
            continue
        v = want[a]
        if enum is not None:
            if a in enums:
                h.check(h.eq(enums[a], ns + '#' + enum + '.' + v), 'enumeration %s' % a)
            else:
                h.check(h.eq(v, dflt), 'enumeration %s is missing' % a)
        elif a in attrs:
            h.check(denotes(h, attrs[a], typ, v), 'attribute %s' % a)
        else:
            h.check(h.eq(v, dflt), 'attribute %s is missing' % a)


# ------------------------------------------------------------------------------ W02: attributes
def some_value(h, a, typ, enum, n):
    if enum is not None:
        return h.str('e_' + a, 1, ok='abzAZ09_')
    if typ == 'str':
        return h.str('v_' + a, n, ok='ab &<\t\n"\u00e9') if n else ''
    return symval(h, typ, 'v_' + a, 1)


PLAIN = {'str': 'text of %s', 'int': 7, 'float': 2.5}


def plain_value(a, typ, d, enum):
    """A concrete value that is not the default."""
    if enum is not None:
        return 'other' if d != 'other' else 'another'
    if typ == 'bool':
        return not d
    return PLAIN[typ] % a if typ == 'str' else PLAIN[typ] if d != PLAIN[typ] else PLAIN[typ] + 1


def give_attributes(h, m, x, every, length=1):
    """Sets attributes of x, at most one of them symbolic; returns all values."""
    al = [a for a in attrs_of(m) if a[0] != 'UUID']
    want = dict((a, rec[1]) for a, rec in al)
    full = h.flag('others are set')
    own = [i for i, (a, rec) in enumerate(al) if every or a in CLASSES[m]['attrs']]
    k = h.choice('symbolic attribute', len(own) + 1)
    for i, (a, (typ, d, enum)) in enumerate(al):
        if k < len(own) and i == own[k]:
            want[a] = some_value(h, a, typ, enum, length)
        elif full:
            want[a] = plain_value(a, typ, d, enum)
        else:
            continue
        setattr(x, a, want[a])
    return want


def attributes(h, m, every=False):
    """All other attributes set or none; one after the other with any value."""
    ns = ns_of(m)
    x = new(m, 'x1')
    want = give_attributes(h, m, x, every)
    es = elements(h, write(h, {'x1': x}), ns)
    h.check(len(es) == 1 and es[0][0] == CLASSES[m]['name'], 'one element of the class')
    h.check(h.eq(get(es[0][1], ID), 'x1') and len(es[0][1].attrs) == 1, 'identifier')
    attrs, enums, refs = stated(h, es[0][1], m, ns)
    check_attrs(h, attrs, enums, m, ns, want)
    h.check(len(refs) == 0, 'no references')
    h.reach('attributes')


# ------------------------------------------------------------------------------ W03: references
def linked(m, f, prefix, n, pre_kw=None):
    """x of class m with n targets through f (0, 1 or more)."""


def all_references(h, m):
    """An object with every reference set: each link is stated (by either end), and nothing else."""
    ns = ns_of(m)
    rl = refs_of(m)
    x = new(m, 'x1')
    objs, links = [(x, m)], []
    imp = [f for f, k, r in rl if f in IMPEDANCE] if any(q in ALIAS for q in lineage(m)) else []
    keep = imp[h.choice('impedance', len(imp))] if imp else None
    inc = h.flag('with targets')
    only = h.choice('one', 2)
    for f, k, (kind, t, g) in rl:
        if f in imp and f != keep:
            continue
        n = 2 if is_many(kind) else 1
        if only and n == 2:
            n = 1
        ts = [new(t, '%s-%d' % (f, i)) for i in range(n)]
        if is_many(kind):
            setattr(x, f, list(ts)) if kind != 'uN' else setattr(x, f, list(ts))
        else:
            setattr(x, f, ts[0])
        for y in ts:
            objs.append((y, t))
    d = {}
    for o, om in (objs if h.flag('order') else objs[::-1]):
        if o is x or inc:
            d[o.UUID] = o
    states(h, d, dict((o.UUID, om) for o, om in objs), ns, partial=not inc)
    h.reach('all references')


def states(h, d, mods, ns, partial=False):
    """The document for d states every link of d's objects from at least one end, and no other links."""
    es = elements(h, write(h, d), ns)
    h.check(len(es) == len(d), 'number of elements')
    said, real = set(), set()
    for n, (i, o) in enumerate(d.items()):
        h.check(es[n][0] == CLASSES[mods[i]]['name'], 'class of an element')
        h.check(h.eq(get(es[n][1], ID), i), 'identifier of an element')
        attrs, enums, refs = stated(h, es[n][1], mods[i], ns)
        for a, r in refs:
            said.add((i, a, r))
        if not shadowed(mods[i]):
            h.check(len(refs) == len(set(refs)), 'a link is stated once per end')
        for f, k, (kind, t, g) in refs_of(mods[i]):
            v = getattr(o, f)
            for y in (v if isinstance(v, list) else [v] if v is not None else []):
                real.add((i, f, y.UUID, g))
    plain = set((a, f, b) for a, f, b, g in real)
    for s in sorted(said):
        h.check(s in plain, 'a link that does not exist is stated: %s' % (s[1],))
    for a, f, b, g in sorted(real, key=str):
        h.check((a, f, b) in said or (g is not None and (b, g, a) in said) or
                any((a, q, b) in said for q in IMPEDANCE if f in IMPEDANCE), 'link %s is not stated' % f)


def graph(h, m, t, f, n):
    """n objects, each linked to one of two targets or none (symbolic), in any order."""
    ns = ns_of(m)
    owner, _, (kind, _, g) = features(m)[f]
    xs = [new(m, 'x%d' % i) for i in range(n)]
    ts = [new(t, 't%d' % i) for i in range(2)]
    for x in xs:
        y = h.pick(h.sel('target', 3), ts + [None])
        if is_many(kind):
            if y is not None:
                setattr(x, f, [y])
        elif y is not None:
            setattr(x, f, y)
    objs = [(x, m) for x in xs] + [(y, t) for y in ts]
    k = h.choice('order', 3)
    objs = objs if k == 0 else objs[::-1] if k == 1 else objs[1:] + objs[:1]
    d = {}
    for o, om in objs:
        d[o.UUID] = o
    states(h, d, dict((o.UUID, om) for o, om in objs), ns)
    h.reach('graph')


def pool(h, m, f, n):
    """n objects of one class, each linked (symbolically) with any of them, itself too, or with none."""
    ns = ns_of(m)
    kind = features(m)[f][2][0]
    xs = [new(m, 'x%d' % i) for i in range(n)]
    for x in xs:
        y = h.pick(h.sel('target', n + 1), xs + [None])
        if y is not None:
            setattr(x, f, [y] if is_many(kind) else y)
    d = {}
    for x in (xs[::-1] if h.flag('reversed') else xs):
        d[x.UUID] = x
    states(h, d, dict((i, m) for i in d), ns)
    h.reach('pool')


# ------------------------------------------------------------------------------ W01: objects, identifiers, escaping
def objects(h, ms, shape, n=1):
    """Every object of the dictionary is written once, in its class and under its identifier."""
    from harness.reader import ident
    ns = ns_of(ms[0])
    d, ids, names = {}, [], []
    for k, m in enumerate(ms):
        i = ident(h, 'id%d' % k, shape)
        for j in ids:
            h.assume(h.neg(h.eq(i, j)))
        x = new(m, i)
        v = h.str('name%d' % k, n, ok='a&<>"\r\n\t ' if n > 1 or len(ms) > 1 else None)
        x.name = v
        ids.append(i)
        names.append(v)
        d[i] = x
    out = write(h, d)
    es = elements(h, out, ns)
    h.check(len(es) == len(ms), 'number of elements')
    for k, m in enumerate(ms):
        h.check(es[k][0] == CLASSES[m]['name'], 'class of an element')
        h.check(h.eq(get(es[k][1], ID), ids[k]), 'identifier of an element')
        attrs, enums, refs = stated(h, es[k][1], m, ns)
        want = dict((a, rec[1]) for a, rec in attrs_of(m))
        want['name'] = names[k]
        check_attrs(h, attrs, enums, m, ns, want)
    h.reach('objects')


def bare_object(h, m):
    from harness.reader import ident
    ns = ns_of(m)
    i = ident(h, 'id', 0)
    x = new(m, i)
    d = {}
    d[i] = x
    es = elements(h, write(h, d), ns)
    h.check(len(es) == 1 and es[0][0] == CLASSES[m]['name'], 'one element of the class')
    h.check(h.eq(get(es[0][1], ID), i), 'identifier')
    attrs, enums, refs = stated(h, es[0][1], m, ns)
    check_attrs(h, attrs, enums, m, ns, dict((a, rec[1]) for a, rec in attrs_of(m)))
    h.reach('bare object')


def text(h, m, a, k, pad, tail, encoding, ok=None, kind='sink'):
    """Any text in an attribute, also a long one, survives."""
    ns = ns_of(m)
    t = h.str('head', k, ok=ok) + 'x' * pad + h.str('tail', tail)
    x = new(m, 'x1')
    setattr(x, a, t)
    es = elements(h, write(h, {'x1': x}, kind, encoding=encoding), ns)
    h.check(len(es) == 1, 'one element')
    attrs, enums, refs = stated(h, es[0][1], m, ns)
    h.check(h.eq(attrs.get(a) if attrs.get(a) is not None else '', t), 'text kept exactly')
    h.reach('text')


def identifier_text(h, m, t, f, n, ok=None):
    """Any text in identifiers and references to them."""
    ns = ns_of(m)
    i = h.str('id', n, ok=ok)
    x, y = new(m, 'x1'), new(t, i)
    kind, _, g = features(m)[f][2]
    setattr(x, f, [y] if is_many(kind) else y)
    es = elements(h, write(h, {'x1': x, 'y1': y}), ns)
    h.check(len(es) == 2, 'two elements')
    h.check(h.eq(get(es[1][1], ID), i), 'identifier')
    attrs, enums, refs = stated(h, es[0][1], m, ns)
    at, en, back = stated(h, es[1][1], t, ns)
    h.check(len(refs) + len(back) > 0, 'the link is stated')
    for a, r in refs:
        h.check(a == f and h.branch(h.eq(r, i)), 'referred identifier')
    for a, r in back:
        h.check(g is not None and a == g and h.branch(h.eq(r, 'x1')), 'referred identifier from the other end')
    h.reach('identifier text')


def large(h, m, t, f, n):
    ns = ns_of(m)
    owner, _, (kind, _, g) = features(m)[f]
    d, mods = {}, {}
    q = 1 if kind in ('11', '1N') else 3
    k = h.choice('special', 3)
    pos = [0, n // 2, n - 1][k]
    a = h.str('name', 1)
    ts = [new(t, 't%d' % i) for i in range(n // q + 1)]
    for i in range(n):
        x = new(m, 'x%d' % i)
        x.name = a if i == pos else 'n%d' % i
        setattr(x, f, [ts[i // q]] if is_many(kind) else ts[i // q])
        d[x.UUID] = x
        mods[x.UUID] = m
    for y in ts:
        d[y.UUID] = y
        mods[y.UUID] = t
    es = elements(h, write(h, d), ns)
    h.check(len(es) == len(d), 'number of elements')
    for j, i in enumerate(d):
        h.check(es[j][0] == CLASSES[mods[i]]['name'], 'class of an element')
        h.check(h.eq(get(es[j][1], ID), i), 'identifier of an element')
        attrs, enums, refs = stated(h, es[j][1], mods[i], ns)
        if j < n:
            h.check(h.eq(attrs.get('name'), d[i].name), 'name')
            h.check((f, ts[j // q].UUID) in refs or g is not None and is_many(kind), 'reference')
    h.reach('large')


# ------------------------------------------------------------------------------ W05: no side effects; sinks
def pure(h, m, t, f):
    """Writing changes neither the dictionary nor the objects, writes the same twice, and flushes."""
    owner, _, (kind, _, g) = features(m)[f]
    x, y, z = new(m, 'x1'), new(t, 'y1'), new(m, 'z1')
    give_attributes(h, m, x, False)
    setattr(x, f, [y] if is_many(kind) else y)
    keys = [['x1', 'y1', 'z1'], ['k1', 'k2', 'k3']][h.choice('keys', 2)]
    d = dict(zip(keys, (x, y, z)))
    kind_ = ['sink', 'bare', 'path'][h.choice('kind', 3)]
    objs = [(x, m), (y, t), (z, m)]

    before = _snapshot(objs)
    out = write(h, d, kind_)
    first = out.text()
    h.check(out.complete(), 'flushed')
    h.check(list(d) == keys and all(p is q for p, q in zip(d.values(), (x, y, z))), 'dictionary unchanged')
    _unchanged(h, before, _snapshot(objs), 'object unchanged')
    second = write(h, d, 'sink').text()
    h.check(h.eq(first, second), 'same document every time')
    h.reach('pure')


def _snapshot(objs):
    s = {}
    for n, (o, om) in enumerate(objs):
        for a in features(om):
            v = getattr(o, a)
            s[n, a] = tuple(v) if isinstance(v, list) else v
    return s


def _unchanged(h, before, after, label):
    for k in before:
        v, w = before[k], after[k]
        if isinstance(v, tuple) or v is None or hasattr(type(v), '_refs'):
            h.check(isinstance(w, tuple) and len(v) == len(w) and all(p is q for p, q in zip(v, w)) if isinstance(v, tuple) else w is v,
                    '%s: %s' % (label, k[1]))
        else:
            h.check(h.eq(v, w), '%s: %s' % (label, k[1]))


def refused(h, m, t, f, lo, hi):
    """A sink that refuses the k-th write (or the flush): the caller gets its error, or nothing was refused; the
    objects are as they were and the next document is complete."""
    owner, _, (kind, _, g) = features(m)[f]
    x, y = new(m, 'x1'), new(t, 'y1')
    x.name = h.str('name', 1)
    setattr(x, f, [y] if is_many(kind) else y)
    d = dict(x1=x, y1=y)
    objs = [(x, m), (y, t)]
    before = _snapshot(objs)
    good = write(h, d, 'sink').text()
    k = lo + h.choice('write', hi - lo)
    out = Output(h, ['sink', 'bare'][h.choice('kind', 2)])
    out.target = out.sink = Failing(out.sink, k)
    from PyCIM import cimwrite
    try:
        cimwrite(d, out.target)
        raised = False
    except Refused:
        raised = True
    h.check(raised == out.sink.failed, 'the error of the sink reaches the caller')
    if not raised:
        h.check(h.eq(out.text(), good), 'complete')
    _unchanged(h, before, _snapshot(objs), 'object unchanged')
    h.check(list(d) == ['x1', 'y1'] and d['x1'] is x and d['y1'] is y, 'dictionary unchanged')
    h.check(h.eq(write(h, d, 'sink').text(), good), 'the next document is complete')
    h.reach('refused')


class Refused(OSError):
    pass


class Failing(object):
    """A sink that refuses its k-th write (k < 0: the flush)."""

    def __init__(self, sink, k):
        self.sink, self.k, self.failed, self.n = sink, k, False, 0
        if hasattr(sink, 'flush'):
            self.flush = self._flush

    @property
    def chunks(self):
        return self.sink.chunks

    def write(self, s):
        if self.n == self.k:
            self.failed = True
            raise Refused()
        self.n += 1
        return self.sink.write(s)

    def _flush(self):
        if self.k < 0:
            self.failed = True
            raise Refused()
        return self.sink.flush()


class Pausing(object):
    """A sink that calls back before every write."""

    def __init__(self, sink, point):
        self.sink, self.point = sink, point
        if hasattr(sink, 'flush'):
            self.flush = sink.flush

    @property
    def chunks(self):
        return self.sink.chunks

    def write(self, s):
        self.point()
        return self.sink.write(s)


def at_once(h, m, t, f, m2, t2, f2, lo, hi, pauses, shared=False):
    """Two writes in two threads: the first up to any of its writes, the second up to any, then each to its end. Both
    documents are as they would be alone. shared: of the same objects."""
    from PyCIM import cimwrite
    from symx.sched import Two
    ds = []
    for n, (m_, t_, f_) in enumerate(((m, t, f), (m2, t2, f2))):
        if shared and n:
            ds.append(ds[0])
            continue
        kind = features(m_)[f_][2][0]
        x, y = new(m_, h.str('id%d' % n, 1, ok='ab')), new(t_, 'y%d' % n)
        x.name = '<%d>' % n + h.str('name%d' % n, 1, ok='ab')
        setattr(x, f_, [y] if is_many(kind) else y)
        d = {}
        d[x.UUID], d[y.UUID] = x, y
        ds.append(d)
    good = [write(h, d, 'sink').text() for d in ds]
    two = Two(lo + h.choice('first', hi - lo), pauses[h.choice('second', len(pauses))])
    outs = []
    for n in range(2):
        out = Output(h, 'bare' if n else 'sink')
        out.target = out.sink = Pausing(out.sink, two.points(n))
        outs.append(out)
    two.run(lambda: cimwrite(ds[0], outs[0].target), lambda: cimwrite(ds[1], outs[1].target))
    for n in range(2):
        h.check(h.eq(outs[n].text(), good[n]), 'document %d' % n)
    h.reach('at once' if two.n[0] > two.k[0] else 'after')


def stream(h, m, t, f):
    """A stream stays the caller's: what it holds is kept, it is not closed, and documents follow each other in it."""
    owner, _, (kind, _, g) = features(m)[f]
    x, y = new(m, 'x1'), new(t, 'y1')
    x.name = h.str('name', 1)
    setattr(x, f, [y] if is_many(kind) else y)
    d = dict(x1=x, y1=y)
    good = write(h, d, 'sink').text()
    out = Output(h, ['sink', 'bare'][h.choice('kind', 2)])
    was = h.str('content', 2)
    out.target.write(was)
    from PyCIM import cimwrite
    cimwrite(d, out.target)
    h.check(h.eq(out.text(), was + good), 'content kept, document appended')
    h.check(not getattr(out.sink, 'closed', False), 'stream left open')
    out.target.write(was)
    cimwrite(d, out.target)
    h.check(h.eq(out.text(), was + good + was + good), 'second document appended')
    h.check(not getattr(out.sink, 'closed', False) and out.complete(), 'stream left open and flushed')
    h.reach('stream')


def between(h, m, t, f, ms):
    """What else is written, of other versions and profiles, does not change a document."""
    owner, _, (kind, _, g) = features(m)[f]
    x, y = new(m, 'x1'), new(t, 'y1')
    x.name = h.str('name', 1)
    setattr(x, f, [y] if is_many(kind) else y)
    d = dict(x1=x, y1=y)
    o = h.choice('other', len(ms) + 1)
    other = {}
    if o < len(ms):
        z = new(ms[o], 'z1')
        z.name = h.str('other name', 1)
        other['z1'] = z
    order = h.choice('order', 3)
    enc = ['utf-8', 'us-ascii'][h.choice('encoding', 2)]

    def a():
        return write(h, d, 'sink').text()

    def b(e=enc):
        return write(h, other, 'sink', encoding=e).text()
    if order == 0:
        r = [a(), b(), a()]
        h.check(h.eq(r[0], r[2]), 'same document')
    elif order == 1:
        r = [b(), a(), b()]
        h.check(h.eq(r[0], r[2]), 'same document')
    else:       # into the same dictionary
        r = [a()]
        d.update(other)
        b()
        for k in other:
            del d[k]
        r.append(a())
        h.check(h.eq(r[0], r[1]), 'same document')
    if o < len(ms):
        out = write(h, other, 'sink')
        es = elements(h, out, ns_of(ms[o]))
        h.check(len(es) == 1 and es[0][0] == CLASSES[ms[o]]['name'] and h.eq(get(es[0][1], ID), 'z1'), 'the other document')
    h.reach('between')


def empty(h):
    """No objects: still a document."""
    from harness.reader import CIM16
    out = write(h, {})
    doc = tree(h, out)
    h.check(doc.root.tag == '{%s}RDF' % RDF and len(doc.root.children) == 0, 'empty document')
    h.reach('empty')


# ------------------------------------------------------------------------------ W04: XMLWriter
TAGS = ['a', 'b', 'c:d', 'e-f']


def calls(h, n, encoding, chars=None, lean=False):
    """A symbolic sequence of n calls: the output is the tree the calls describe."""
    from PyCIM.SimpleXMLWriter import XMLWriter
    out = Output(h, ['sink', 'bare'][h.choice('sink', 2)])
    w = XMLWriter(out.target, encoding)
    ch = chars or 'a&<>"\'\r\n\t ;#\u00e9'
    root = Node('root', [], None, [], None)
    stack = [root]
    ident = [w.start('root', {'xmlns:c': 'urn:c'})]

    def put(t):
        top = stack[-1]
        if top.children:
            k = top.children[-1]
            k.tail = t if k.tail is None else k.tail + t
        else:
            top.text = t if top.text is None else top.text + t
    for s in range(n):
        op = h.choice('op', 6)
        if op == 0:         # start
            tag = TAGS[0] if lean else TAGS[h.choice('tag', 2)]
            how = [0, 2, 3][h.choice('attributes', 3)] if lean else h.choice('attributes', 4)
            v = h.str('value', 1, ok=ch)
            if how == 0:
                at = []
                i = w.start(tag)
            elif how == 1:
                at = [('k', v), ('z', 'y')]
                given = {'k': v, 'z': 'y'}
                i = w.start(tag, given)
                h.check(list(given) == ['k', 'z'] and h.branch(h.eq(given['k'], v)), "the caller's dictionary is unchanged")
            elif how == 2:
                at = [('k', v), ('m', 'n')]
                given = {'m': 'n'}
                i = w.start(tag, given, k=v)
                h.check(list(given) == ['m'], "the caller's dictionary is unchanged")
            else:
                at = [('k', v)]
                i = w.start(tag, k=v)
            e = Node(tag, at, None, [], None)
            stack[-1].children.append(e)
            stack.append(e)
            ident.append(i)
        elif op == 1:       # data
            t = h.str('data', 1, ok=ch)
            w.data(t)
            put(t)
        elif op == 2:       # end
            if len(stack) == 1:
                h.stop()
            if h.flag('named'):
                w.end(stack[-1].tag)
            else:
                w.end()
            stack.pop()
            ident.pop()
        elif op == 3:       # element
            tag = TAGS[3] if lean else TAGS[2 + h.choice('tag', 2)]
            t = h.str('text', 1, ok=ch) if h.flag('with text') else None
            v = h.str('value', 1, ok=ch)
            how = 1 if lean else h.choice('attributes', 3)
            if how == 0:
                w.element(tag, t)
                at = []
            elif how == 2:
                w.element(tag, t, k=v)
                at = [('k', v)]
            else:
                w.element(tag, t, {'k': v})
                at = [('k', v)]
            q = tag if ':' not in tag else '{urn:c}' + tag.split(':')[1]
            stack[-1].children.append(Node(q, at, t, [], None))
        elif op == 4:       # comment
            t = h.str('comment', 1, ok='a&<>\r ')
            w.comment(t)
            put('\n')
        else:               # close
            k = h.choice('close', 3)
            if k == 0 or k >= len(stack):
                h.stop()
            w.close(ident[k])
            del stack[k:]
            del ident[k:]
    w.close(ident[0])
    w.flush()
    h.check(out.complete(), 'flushed')
    same(h, tree(h, out).root, root)
    h.reach('calls')


def same(h, a, b):
    h.check(a.tag == b.tag, 'tag')
    h.check(len(a.attrs) == len(b.attrs), 'number of attributes')
    for k, v in b.attrs:
        w = get(a, k)
        h.check(w is not None and h.branch(h.eq(w, v)), 'attribute')
    for x, y, l in ((a.text, b.text, 'text'), (a.tail, b.tail, 'tail')):
        h.check(h.eq(x or '', y or ''), l)
    h.check(len(a.children) == len(b.children), 'number of children')
    for x, y in zip(a.children, b.children):
        same(h, x, y)


def escapes(h, fn, n, encoding, ok=None):
    """The escaping functions: what a parser makes of the result is the argument."""
    from PyCIM import SimpleXMLWriter as S
    t = h.str('text', n, ok=ok)
    out = Output(h, 'bare')
    if fn == 'escape_cdata':
        out.target.write('<a>')
        out.target.write(S.escape_cdata(t, encoding))
        out.target.write('</a>')
        h.check(h.eq(tree(h, out).root.text or '', t), 'text')
    else:
        q = ['"', "'"][h.choice('quote', 2)]
        out.target.write('<a b=' + q)
        out.target.write(S.escape_attrib(t, encoding))
        out.target.write(q + '/>')
        h.check(h.eq(get(tree(h, out).root, 'b'), t), 'attribute value')
    h.reach('escapes')


def declaration(h):
    """The XML declaration."""
    from PyCIM.SimpleXMLWriter import XMLWriter
    enc = ['us-ascii', 'utf-8', None][h.choice('encoding', 3)]
    out = Output(h, 'bare')
    w = XMLWriter(out.target, enc) if enc else XMLWriter(out.target)
    w.declaration()
    t = h.str('text', 1)
    w.element('a', t)
    h.check(h.eq(tree(h, out).root.text or '', t), 'document with a declaration')
    h.reach('declaration')


def unbalanced(h):
    """Ending what is not open, or under another name, is refused."""
    from PyCIM.SimpleXMLWriter import XMLWriter
    out = Output(h, 'bare')
    w = XMLWriter(out.target)
    k = h.choice('depth', 3)
    tags = [['a', 'b'][h.choice('tag', 2)] for i in range(k)]
    for t in tags:
        w.start(t)
    t = h.str('tag', 1, ok='abc')
    ok = k > 0 and h.branch(h.eq(t, tags[-1]))
    try:
        w.end(t)
        done = True
    except AssertionError:
        done = False
    h.check(done == ok, 'end of the open element only')
    h.reach('unbalanced')
