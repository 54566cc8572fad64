"""Writing and reading back (T01 attributes, T02 links)."""
from harness.model import CLASSES, SPEC, features, cls, is_many, lineage, ALIAS, IMPEDANCE, new
from harness.frame import attrs_of, refs_of
from harness.reader import profile_of, how, PKG, URI
from harness.writer import write, ns_of, give_attributes, plain_value
from symx.xmltok import Malformed

SOURCE_MODES = ('plain', 'dribble')


def again(h, d, m, kind='sink', start=None):
    """The dictionary that reading the document written for d yields."""
    import importlib
    from PyCIM import cimread
    out = write(h, d, kind)
    try:
        src = out.source()
    except Malformed:
        h.fail('not well-formed XML')
    p = profile_of(m)
    kw = {}
    if p not in ('CIM14', 'CIM15'):
        kw = dict(packageMap=importlib.import_module(p).packageMap, nsURI=URI[m.split('.')[0]])
    if start is not None:
        kw['start_dict'] = start
    return cimread(src, **kw)


def names(v):
    if isinstance(v, list):
        return sorted(y.UUID for y in v)
    return None if v is None else v.UUID


def compare(h, d, e, mods):
    h.check(len(e) == len(d), 'number of objects')
    for i, o in d.items():
        m = mods[i]
        h.check(i in e, 'object is missing')
        x = e[i]
        h.check(type(x) is cls(m) and x is not o, 'class')
        for a, (typ, dflt, enum) in attrs_of(m):
            h.check(h.eq(getattr(x, a), getattr(o, a)), 'attribute %s' % a)
        for f, k, rec in refs_of(m):
            h.check(names(getattr(x, f)) == names(getattr(o, f)), 'reference %s' % f)


def attributes(h, m, every=False):
    x = new(m, 'x1')
    give_attributes(h, m, x, every)
    compare(h, {'x1': x}, again(h, {'x1': x}, m), {'x1': m})
    h.reach('attributes')


def text(h, m, a, k, pad, tail, ok=None):
    x = new(m, 'x1')
    t = h.str('head', k, ok=ok) + 'x' * pad + h.str('tail', tail)
    setattr(x, a, t)
    e = again(h, {'x1': x}, m)
    h.check(h.eq(getattr(e['x1'], a), t), 'text kept exactly')
    h.reach('text')


def instance_of(t, m):
    from harness.reader import instance
    return instance(t, profile_of(m))


def fully_linked(h, m):
    """An object with every reference set; (object, class) of it and of all it refers to."""
    rl = refs_of(m)
    x = new(m, 'x1')
    objs = [(x, m)]
    imp = [f for f, k, r in rl if f in IMPEDANCE] if any(q in ALIAS for q in lineage(m)) else []
    keep = imp[h.choice('impedance', len(imp))] if imp else None
    for f, k, (kind, t, g) in rl:
        t = instance_of(t, m)
        if (f in imp and f != keep) or t is None:
            continue
        n = 2 if is_many(kind) else 1
        ts = [new(t, '%s-%d' % (f, i)) for i in range(n)]
        setattr(x, f, list(ts) if is_many(kind) else ts[0])
        for y in ts:
            objs.append((y, t))
    return objs


def keyed(objs):
    d, mods = {}, {}
    for o, om in objs:
        d[o.UUID] = o
        mods[o.UUID] = om
    return d, mods


def all_references(h, m):
    """An object with every reference, its targets with theirs back."""
    objs = fully_linked(h, m)
    order = h.choice('order', 3)
    d, mods = keyed(objs if order == 0 else objs[::-1] if order == 1 else objs[len(objs) // 2:] + objs[:len(objs) // 2])
    compare(h, d, again(h, d, m), mods)
    h.reach('all references')


def in_turn(h, ms):
    """Classes of one name of several versions and profiles, one after another: each keeps what is its own."""
    i = h.choice('first', len(ms))
    j = h.choice('second', len(ms))
    for m in (ms[i], ms[j]):
        objs = fully_linked(h, m)
        for a, (typ, dflt, enum) in attrs_of(m):
            if a != 'UUID':
                setattr(objs[0][0], a, plain_value(a, typ, dflt, enum))
        d, mods = keyed(objs)
        compare(h, d, again(h, d, m), mods)
    h.reach('in turn')


def one_reference(h, m, f):
    """Two objects of class m linked (symbolically) with two targets through f."""
    owner, _, (kind, t, g) = features(m)[f]
    t = instance_of(t, m)
    xs = [new(m, 'x%d' % i) for i in range(2)]
    ts = [new(t, 't%d' % i) for i in range(2)]
    for x in xs:
        if is_many(kind):
            pick = [y for y in ts if h.flag('member')]
            setattr(x, f, pick)
        else:
            setattr(x, f, h.pick(h.sel('target', 3), ts + [None]))
    objs = [(x, m) for x in xs] + [(y, t) for y in ts]
    k = h.choice('order', 4)
    objs = [objs, objs[::-1], [objs[0], objs[2], objs[1], objs[3]], objs[2:] + objs[:2]][k]
    d, mods = {}, {}
    for o, om in objs:
        d[o.UUID] = o
        mods[o.UUID] = om
    compare(h, d, again(h, d, m), mods)
    h.reach('one reference')


def pool(h, m, f, n):
    """n objects of one class, each linked (symbolically) with any of them, itself too, or with none."""
    owner, _, (kind, t, g) = features(m)[f]
    xs = [new(m, 'x%d' % i) for i in range(n)]
    for x in xs:
        y = h.pick(h.sel('target', n + 1), xs + [None])
        if y is not None:
            setattr(x, f, [y] if is_many(kind) else y)
    d = {}
    for x in (xs[::-1] if h.flag('reversed') else xs):
        d[x.UUID] = x
    compare(h, d, again(h, d, m), dict((i, m) for i in d))
    h.reach('pool')


def names_and_ids(h, m, t, f, shape, n):
    """Symbolic identifiers and texts through both directions."""
    from harness.reader import ident
    owner, _, (kind, _, g) = features(m)[f]
    i, j = ident(h, 'i', shape), ident(h, 'j', shape)
    h.assume(h.neg(h.eq(i, j)))
    x, y = new(m, i), new(t, j)
    v = h.str('name', n, ok='a&<>\r\n\t"' if n > 1 else None)
    x.name = v
    setattr(x, f, [y] if is_many(kind) else y)
    d = {}
    d[i] = x
    d[j] = y
    e = again(h, d, m, ['sink', 'bare', 'path'][h.choice('kind', 3)])
    h.check(len(e) == 2 and i in e and j in e, 'the same identifiers')
    h.check(type(e[i]) is cls(m) and type(e[j]) is cls(t), 'classes')
    h.check(h.eq(e[i].UUID, i) and h.eq(e[j].UUID, j), 'UUIDs')
    h.check(h.eq(e[i].name, v), 'name')
    got = getattr(e[i], f)
    h.check((len(got) == 1 and got[0] is e[j]) if is_many(kind) else got is e[j], 'reference')
    h.reach('names and identifiers')


def large(h, m, t, f, n):
    owner, _, (kind, _, g) = features(m)[f]
    d, mods = {}, {}
    q = 1 if kind in ('11', '1N') else 3
    a = h.str('name', 1)
    pos = [0, n // 2, n - 1][h.choice('special', 3)]
    ts = [new(t, 't%d' % i) for i in range(n // q + 1)]
    objs = []
    for i in range(n):
        x = new(m, 'x%d' % i)
        x.name = a if i == pos else 'n%d' % i
        setattr(x, f, [ts[i // q]] if is_many(kind) else ts[i // q])
        objs.append((x, m))
    tl = [(y, t) for y in ts]
    for o, om in (objs + tl if h.flag('order') else tl + objs):
        d[o.UUID] = o
        mods[o.UUID] = om
    compare(h, d, again(h, d, m), mods)
    h.reach('large')
