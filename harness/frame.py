"""Single objects: defaults and keyword construction (C05), construction with references (C06), and the
frame of every mutation (C04)."""
from harness.model import CLASSES, features, new, cls, is_many, ALIAS, IMPEDANCE, rooted, lineage


def symval(h, typ, name, n=3):
    if typ == 'str':
        return h.str(name, n, valid=False, maxcp=0x10ffff)
    if typ == 'int':
        return h.int(name)
    if typ == 'float':
        return h.float(name)
    if typ == 'bool':
        return h.bool(name)
    raise ValueError(typ)


def keep(h, a, b):
    """a is still the value b."""
    return h.eq(a, b)


def attrs_of(m):
    return sorted((a, rec) for a, (k, t, rec) in features(m).items() if t == 'attr')


def refs_of(m):
    return sorted((f, k, rec) for f, (k, t, rec) in features(m).items() if t == 'ref')


# ------------------------------------------------------------------------------ C05
def defaults(h, m):
    """A fresh object has the model's default in every attribute and no references."""
    x = cls(m)()
    for a, (typ, d, enum) in attrs_of(m):
        h.check(h.eq(getattr(x, a), d), 'default of %s' % a)
    for f, k, (kind, t, g) in refs_of(m):
        v = getattr(x, f)
        h.check((isinstance(v, list) and len(v) == 0) if is_many(kind) else v is None, 'initial %s' % f)
    h.reach('defaults')


def keywords(h, m, only=None):
    """Attribute values given by keyword (and nothing else) are what the object holds."""
    al = attrs_of(m)
    given = {}
    for n, (a, (typ, d, enum)) in enumerate(al):
        if only is None or n == only:
            given[a] = symval(h, typ, 'v_' + a)
    x = cls(m)(**given)
    for a, (typ, d, enum) in al:
        h.check(h.eq(getattr(x, a), given[a] if a in given else d), 'value of %s' % a)
    for f, k, (kind, t, g) in refs_of(m):
        v = getattr(x, f)
        h.check((isinstance(v, list) and len(v) == 0) if is_many(kind) else v is None, 'initial %s' % f)
    h.reach('keywords')


def each_keyword(h, m):
    """Every attribute alone, every other one stays at its default."""
    al = attrs_of(m)
    for n in range(len(al)):
        keywords(h, m, only=n)


# ------------------------------------------------------------------------------ C06
def _give(h, m, f, kind, t, g, tag, pre):
    """Targets for feature f of a new m; (argument, targets, previous owner)."""
    n = 2 if is_many(kind) else 1
    ts = [new(t, '%s%s%d' % (tag, f, i)) for i in range(n)]
    other = None
    if pre and g is not None and kind in ('11', '1N'):
        other = new(m, tag + 'other' + f)
        for x in (ts if kind == '1N' else ts[:1]):
            setattr(x, g, other)
    elif pre and g is not None:
        other = new(m, tag + 'other' + f)
        for x in ts:
            if kind == 'NN':
                getattr(x, 'add' + g)(other)
            else:
                setattr(other, f, x)
    return (list(ts) if n == 2 else ts[0]), ts, other


def _linked(h, x, f, kind, g, ts, other, label):
    v = getattr(x, f)
    if is_many(kind):
        h.check(isinstance(v, list) and len(v) == len(ts) and all(a is b for a, b in zip(v, ts)), label)
    else:
        h.check(v is ts[0], label)
    for t in ts:
        if g is None:
            continue
        w = getattr(t, g)
        if kind in ('11', '1N'):
            h.check(w is x, label + ' (inverse)')
        else:
            h.check(isinstance(w, list) and len([1 for o in w if o is x]) == 1, label + ' (inverse)')
            h.check(len(w) == (1 if other is None else 2), label + ' (inverse)')
    if other is not None:
        v = getattr(other, f)
        if kind == '11':
            h.check(v is None, label + ' (previous partner)')
        elif kind == '1N':
            h.check(len(v) == 0, label + ' (previous owner)')
        elif kind == 'N1':
            h.check(v is ts[0], label + ' (other member)')
        else:
            h.check(len(v) == 2, label + ' (other member)')


def construct_one(h, m, f):
    """An object built with one reference is linked on both sides; previous owners have let go."""
    owner, _, (kind, t, g) = features(m)[f]
    pre = h.flag('linked before')
    arg, ts, other = _give(h, m, f, kind, t, g, 't', pre)
    x = new(m, 'x', **{f: arg})
    if isinstance(arg, list):
        arg[:] = []             # what the caller does with the list afterwards is the caller's
    _linked(h, x, f, kind, g, ts, other, 'link %s' % f)
    h.reach('construct one')


def construct_all(h, m, impedance='PerLengthImpedance'):
    """All references (and attributes) at once: every link is made, none disturbs another one."""
    pre = h.flag('linked before')
    args, exp = {}, []
    skip = IMPEDANCE - {impedance} if any(k in ALIAS for k in lineage(m)) else ()
    for f, k, (kind, t, g) in refs_of(m):
        if f in skip:
            continue
        arg, ts, other = _give(h, m, f, kind, t, g, 't', pre)
        args[f] = arg
        exp.append((f, kind, g, ts, other))
    vals = {}
    for a, (typ, d, enum) in attrs_of(m):
        if a != 'UUID':
            vals[a] = symval(h, typ, 'v_' + a, 1)
    x = new(m, 'x', **dict(args, **vals))
    for f in args:
        if isinstance(args[f], list):
            args[f][:] = []
    for f, kind, g, ts, other in exp:
        _linked(h, x, f, kind, g, ts, other, 'link %s' % f)
    for a in vals:
        h.check(h.eq(getattr(x, a), vals[a]), 'value of %s' % a)
    h.reach('construct all')


def impedance_conflict(h, m):
    """More than one impedance model is refused."""
    Z = {'SequenceImpedance': 'CIM15.IEC61970.Wires.PerLengthSequenceImpedance',
         'PhaseImpedance': 'CIM15.IEC61970.Wires.PerLengthPhaseImpedance',
         'PerLengthImpedance': 'CIM15.IEC61970.Wires.PerLengthSequenceImpedance'}
    given = {}
    for f in sorted(Z):
        if h.flag(f):
            given[f] = new(Z[f], f)
    try:
        x = new(m, 'x', **given)
        refused = False
    except ValueError:
        refused = True
    h.check(refused == (len(given) > 1), 'conflicting impedances refused, single ones accepted')
    if not refused:
        for f in given:
            h.check(getattr(x, f) is given[f], 'impedance %s' % f)
            h.check(x.PerLengthImpedance is given[f], 'generic impedance')
    h.reach('impedance')


# ------------------------------------------------------------------------------ C04
def _populate(h, m, tag, spare):
    x = new(m, tag)
    objs = [(x, m)]
    done = set()
    for f, k, (kind, t, g) in refs_of(m):
        if f in IMPEDANCE and any(q in ALIAS for q in lineage(m)):
            if 'imp' in done:
                continue
            done.add('imp')
        p = new(t, tag + f)
        objs.append((p, t))
        if is_many(kind):
            _adder(x, m, f)(p)
        else:
            setattr(x, f, p)
    return x, objs


def _adder(x, m, f):
    a = getattr(x, 'add' + f, None)
    return a if a is not None else getattr(x, 'add_' + f)


def _remover(x, m, f):
    a = getattr(x, 'remove' + f, None)
    return a if a is not None else getattr(x, 'remove_' + f)


def _snapshot(objs):
    s = {}
    for n, (o, m) in enumerate(objs):
        for a in features(m):
            v = getattr(o, a)
            s[n, a] = tuple(v) if isinstance(v, list) else v
    return s


def _same_val(h, v, w):
    if isinstance(v, tuple) or isinstance(w, tuple):
        return isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w) and \
            all(a is b for a, b in zip(v, w))
    if v is None or w is None or hasattr(type(v), '_refs') or hasattr(type(w), '_refs'):
        return h.same(v, w)
    return h.eq(v, w)


def frame(h, m, f, op):
    """Operation `op` on feature f of one object: every other feature of every object stays."""
    owner, what, rec = features(m)[f]
    x, ox = _populate(h, m, 'x', True)
    y, oy = _populate(h, m, 'y', True)
    objs = ox + oy
    for a, (typ, d, enum) in attrs_of(m):
        if a != 'UUID':
            setattr(x, a, symval(h, typ, 'x_' + a, 1))
            setattr(y, a, symval(h, typ, 'y_' + a, 1))
    inv = None
    if what == 'ref':
        kind, t, inv = rec
        target = new(t, 'target')
        objs.append((target, t))
    before = _snapshot(objs)
    if what == 'attr':
        v = symval(h, rec[0], 'new', 1)
        setattr(x, f, v)
        h.check(h.eq(getattr(x, f), v), 'value written')
    elif op == 'set':
        tab = [None, target, getattr(y, f)]
        setattr(x, f, h.pick(h.sel('target', 3), tab))
    elif op == 'add':
        _adder(x, m, f)(target)
    elif op == 'remove':
        _remover(x, m, f)(getattr(x, f)[0])
    elif op == 'list':
        n = h.choice('n', 3)
        setattr(x, f, [target, getattr(y, f)[0]][:n])
    elif op == 'get':
        getattr(x, f)
        getattr(x, 'get' + f, lambda: None)()
    after = _snapshot(objs)
    own = {f}
    if any(q in ALIAS for q in lineage(m)) and f in IMPEDANCE:
        own = set(IMPEDANCE)
    bs = set(lineage(rec[1])) if what == 'ref' else set()
    for n, (o, om) in enumerate(objs):
        for a in features(om):
            if op != 'get':
                if a in own and (o is x or (what == 'ref' and om == m)):
                    continue
                if what == 'ref' and inv is not None and a == inv and rec[1] in lineage(om):
                    continue
                if what == 'ref' and (inv in IMPEDANCE and a in IMPEDANCE or f in IMPEDANCE and a == 'LineSegments'):
                    continue        # one association under several names
                if what == 'ref' and inv is None and f == 'OperationalLimitSet':
                    continue
            h.check(_same_val(h, before[n, a], after[n, a]), 'feature %s of %s unchanged' % (a, om.split('.')[-1]))
    z = cls(m)()
    for a, (typ, d, enum) in attrs_of(m):
        h.check(h.eq(getattr(z, a), d), 'default of %s in a later object' % a)
    for r, k, (kind, t, g) in refs_of(m):
        w = getattr(z, r)
        h.check((isinstance(w, list) and len(w) == 0) if is_many(kind) else w is None, 'initial %s of a later object' % r)
    h.reach('frame ' + op)


def frame_all(h, m, own_only=True):
    feats = features(m)
    names = sorted(f for f in feats if not own_only or feats[f][0] == m)
    names = [f for f in names if f != 'UUID']
    if not names:
        h.check(True, 'nothing declared')
        return
    f = names[h.choice('feature', len(names))]
    what, rec = feats[f][1], feats[f][2]
    if what == 'attr':
        op = 'set'
    elif is_many(rec[0]):
        op = ['add', 'remove', 'list', 'get'][h.choice('op', 4)]
    else:
        op = ['set', 'get'][h.choice('op', 2)]
    frame(h, m, f, op)
