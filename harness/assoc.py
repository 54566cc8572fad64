"""Bidirectional associations (C01 one-to-one, C02 one-to-many, C03 many-to-many) and unidirectional
references (C07).

Each harness builds a symbolic pre-state through the public setters, applies `steps` symbolic
operations, keeps a reference model of the links beside them (plain relations over selectors) and
then asserts that both sides of every object agree with the model.
"""
from harness.model import new, features


def _objs(h, m, n, tag):
    out = []
    for i in range(n):
        x = new(m, h.str('uuid_%s%d' % (tag, i), 1, ok='ab'))
        if 'name' in features(m):
            x.name = h.str('name_%s%d' % (tag, i), 1, ok='ab')
        out.append(x)
    return out


def _crowd(m, n):
    """Bystanders; some of them have identifiers and names in common."""
    out = []
    for i in range(n):
        x = new(m, 'ab'[i % 2])
        if 'name' in features(m):
            x.name = 'ab'[i // 2 % 2]
        out.append(x)
    return out


def _idx(h, x, pool):
    """Conditions [x is pool[0], ...]."""
    return [h.same(x, c) for c in pool]


def _check_list(h, lst, pool, member, label):
    """`lst` holds exactly the objects pool[i] with member[i], each once (and nothing else)."""
    if not isinstance(lst, list):
        h.fail(label + ': not a list')
    rows = [_idx(h, x, pool) for x in lst]
    for r in rows:
        h.check(h.any(*[h.all(c, m) for c, m in zip(r, member)]), label + ': a stranger is listed')
    for i, m in enumerate(member):
        col = [r[i] for r in rows]
        h.check(h.iff(h.any(*col), m), label + ': missing member')
        for a in range(len(col)):
            for b in range(a):
                h.check(h.neg(h.all(col[a], col[b])), label + ': listed twice')


def _distinct(h, sels):
    for a in range(len(sels)):
        for b in range(a):
            h.assume(h.neg(h.sel_eq(sels[a], sels[b])))


def _same_list(h, got, want, label):
    got = list(got)
    if len(got) != len(want):
        h.fail(label)
    for a, b in zip(got, want):
        h.check(h.same(a, b), label)


# ---------------------------------------------------------------------------- one-to-many
def n1(h, A, f, B, g, na=2, nb=2, ops=('set',), pool=False, big=0):
    """A.f is the single end, B.g the list. `big` further children are linked to parent 1 beforehand."""
    bs = _objs(h, B, nb, 'b')
    cs = bs if pool else _objs(h, A, na, 'a')
    na = len(cs)
    extra = [] if pool else _crowd(A, big)
    ps = [None] + bs
    own = []
    for i in range(na):
        s = h.sel('own%d' % i, nb + 1)
        setattr(cs[i], f, h.pick(s, ps))
        own.append(s)
        if i == 0:
            for x in extra:
                setattr(x, f, bs[0])
    for op in ops:
        own = _n1_step(h, op, f, g, cs, bs, ps, own, extra)
    for i in range(na):
        h.check(h.same(getattr(cs[i], f), h.pick(own[i], ps)), '%s: owner read back' % '/'.join(ops))
    for x in extra:
        if 'list' not in ops and 'alias' not in ops:
            h.check(h.same(getattr(x, f), bs[0]), '%s: owner of a bystander' % '/'.join(ops))
    for j in range(len(bs)):
        member = [h.sel_eq(own[i], j + 1) for i in range(na)]
        if extra:
            member = member + [h.same(getattr(x, f), bs[j]) for x in extra]
        _check_list(h, getattr(bs[j], g), cs + extra, member, '%s: members of an owner' % '/'.join(ops))
    h.reach('/'.join(ops))


def _n1_step(h, op, f, g, cs, bs, ps, own, extra):
    na, nb = len(cs), len(bs)
    if op == 'set':
        k, v = h.choice('k', na), h.sel('v', nb + 1)
        setattr(cs[k], f, h.pick(v, ps))
        return own[:k] + [v] + own[k + 1:]
    if op == 'add':
        m = h.choice('nargs', 3)
        args = [h.sel('arg', na) for _ in range(m)]
        getattr(bs[0], 'add' + g)(*[h.pick(s, cs) for s in args])
        return [h.ite(h.any(*[h.sel_eq(s, i) for s in args]), 1, own[i]) for i in range(na)]
    if op == 'remove':
        m = h.choice('nargs', 3)
        if m == 0:                  # of one that is not a member: refused, ignored or detached, but in agreement
            k = h.choice('which', na)
            h.assume(h.neg(h.sel_eq(own[k], 1)))
            try:
                getattr(bs[0], 'remove' + g)(cs[k])
            except (ValueError, KeyError):
                pass
            return own[:k] + [h.ite(h.same(getattr(cs[k], f), None), 0, own[k])] + own[k + 1:]
        args = [h.fix(h.sel('arg', na), na) for _ in range(m)]
        _distinct(h, args)
        for s in args:
            h.assume(h.sel_eq(own[s], 1))
        getattr(bs[0], 'remove' + g)(*[cs[s] for s in args])
        return [h.ite(i in args, 0, own[i]) for i in range(na)]
    if op == 'list':
        m = h.choice('len', min(na, 3) + 1)
        args = [h.sel('arg', na) for _ in range(m)]
        _distinct(h, args)
        want = [h.pick(s, cs) for s in args]
        given = list(want)
        setattr(bs[0], g, given)
        _same_list(h, getattr(bs[0], g), want, 'list: read back in the order assigned')
        given[:] = []               # what the caller does with the list afterwards is the caller's
        return [h.ite(h.any(*[h.sel_eq(s, i) for s in args]), 1, h.ite(h.sel_eq(own[i], 1), 0, own[i]))
                for i in range(na)]
    if op == 'alias':
        j = h.choice('from', nb)    # a parent's list assigned to parent 1 (its own list included)
        want = list(getattr(bs[j], g))
        setattr(bs[0], g, getattr(bs[j], g))
        _same_list(h, getattr(bs[0], g), want, 'alias: read back in the order assigned')
        return [h.ite(h.sel_eq(own[i], j + 1), 1, h.ite(h.sel_eq(own[i], 1), 0, own[i])) for i in range(na)]
    raise ValueError(op)


# ---------------------------------------------------------------------------- many-to-many
def nn(h, A, f, B, g, na=2, nb=2, ops=('add',), pool=False, big=0):
    bs = _objs(h, B, nb, 'b')
    as_ = bs if pool else _objs(h, A, na, 'a')
    na = len(as_)
    link = []
    extra = [] if pool else _crowd(B, big)
    for i in range(na):
        row = []
        for j in range(nb):
            b = h.flag('link%d%d' % (i, j))
            if b:
                getattr(as_[i], 'add' + f)(bs[j])
            row.append(b)
        link.append(row)
        if i == 0:
            getattr(as_[0], 'add' + f)(*extra)
    xl = bool(extra)
    for op in ops:
        link, xl = _nn_step(h, op, f, g, as_, bs, link, extra, xl)
    lab = '/'.join(ops)
    for i in range(na):
        _check_list(h, getattr(as_[i], f), bs + extra, list(link[i]) + [i == 0 and xl] * len(extra), '%s: own list' % lab)
    for j in range(nb):
        _check_list(h, getattr(bs[j], g), as_, [link[i][j] for i in range(na)], '%s: inverse list' % lab)
    for x in extra:
        _check_list(h, getattr(x, g), as_, [i == 0 and xl for i in range(na)], '%s: inverse list' % lab)
    h.reach(lab)


def _nn_step(h, op, f, g, as_, bs, link, extra, xl):
    na, nb = len(as_), len(bs)

    def setrow(i, row):
        return link[:i] + [row] + link[i + 1:]
    if op == 'add':
        m = h.choice('nargs', 3)
        args = [h.sel('arg', nb) for _ in range(m)]
        getattr(as_[0], 'add' + f)(*[h.pick(s, bs) for s in args])
        return setrow(0, [h.any(link[0][j], *[h.sel_eq(s, j) for s in args]) for j in range(nb)]), xl
    if op == 'remove':
        m = h.choice('nargs', 3)
        if m == 0:                  # of one that is not a member: nothing changes
            j = h.choice('which', nb)
            h.assume(h.neg(link[0][j]))
            try:
                getattr(as_[0], 'remove' + f)(bs[j])
            except (ValueError, KeyError):
                pass
            return link, xl
        args = [h.fix(h.sel('arg', nb), nb) for _ in range(m)]
        _distinct(h, args)
        for s in args:
            h.assume(link[0][s])
        getattr(as_[0], 'remove' + f)(*[bs[s] for s in args])
        return setrow(0, [False if j in args else link[0][j] for j in range(nb)]), xl
    if op == 'list':
        m = h.choice('len', min(nb, 3) + 1)
        args = [h.sel('arg', nb) for _ in range(m)]
        _distinct(h, args)
        want = [h.pick(s, bs) for s in args]
        given = list(want)
        setattr(as_[0], f, given)
        _same_list(h, getattr(as_[0], f), want, 'list: read back in the order assigned')
        given[:] = []
        return setrow(0, [h.any(*[h.sel_eq(s, j) for s in args]) for j in range(nb)]), False
    if op == 'alias':
        i = h.choice('from', na)
        want = list(getattr(as_[i], f))
        setattr(as_[0], f, getattr(as_[i], f))
        _same_list(h, getattr(as_[0], f), want, 'alias: read back in the order assigned')
        return setrow(0, list(link[i])), xl and i == 0
    raise ValueError(op)


# ---------------------------------------------------------------------------- one-to-one
def one(h, A, f, B, g, na=2, nb=2, ops=('set',)):
    as_, bs = _objs(h, A, na, 'a'), _objs(h, B, nb, 'b')
    at, bt = [None] + as_, [None] + bs
    pa = [0] * na

    def seta(k, v):
        setattr(as_[k], f, h.pick(v, bt))
        for i in range(na):
            if i != k:
                pa[i] = h.ite(h.all(h.neg(h.sel_eq(v, 0)), h.sel_eq(pa[i], v)), 0, pa[i])
        pa[k] = v

    def setb(k, v):
        setattr(bs[k], g, h.pick(v, at))
        for i in range(na):
            pa[i] = h.ite(h.sel_eq(v, i + 1), k + 1, h.ite(h.sel_eq(pa[i], k + 1), 0, pa[i]))
    for i in range(na):
        seta(i, h.sel('pre%d' % i, nb + 1))
    for op in ops:
        if op == 'set':
            seta(h.choice('k', na), h.sel('v', nb + 1))
        else:
            setb(h.choice('k', nb), h.sel('v', na + 1))
    lab = '/'.join(ops)
    for i in range(na):
        h.check(h.same(getattr(as_[i], f), h.pick(pa[i], bt)), '%s: own side' % lab)
    for j in range(nb):
        got = getattr(bs[j], g)
        for i in range(na):
            h.check(h.iff(h.same(got, as_[i]), h.sel_eq(pa[i], j + 1)), '%s: inverse side' % lab)
        h.check(h.iff(h.same(got, None), h.all(*[h.neg(h.sel_eq(pa[i], j + 1)) for i in range(na)])), '%s: inverse side' % lab)
    h.reach(lab)


# ---------------------------------------------------------------------------- unidirectional
def u1(h, A, f, B, na=2, nb=2, steps=2):
    """A plain reference reads back what was assigned last, whatever else points at the target."""
    as_, bs = _objs(h, A, na, 'a'), _objs(h, B, nb, 'b')
    bt = [None] + bs
    cur = []
    for i in range(na):
        h.check(h.same(getattr(as_[i], f), None), 'u1: initially empty')
        cur.append(0)
    for _ in range(steps):
        k, v = h.choice('k', na), h.sel('v', nb + 1)
        setattr(as_[k], f, h.pick(v, bt))
        cur[k] = v
    for i in range(na):
        h.check(h.same(getattr(as_[i], f), h.pick(cur[i], bt)), 'u1: reads back the last value')
    h.reach('u1')


def un(h, A, f, B, ops=('add',), nb=2, add='add_', rem='remove_', big=0):
    """A unidirectional list: members added are listed, removed ones are not, in the order given."""
    a, other = _objs(h, A, 2, 'a')
    bs = _objs(h, B, nb, 'b')
    extra, extra2 = _crowd(B, big), new(B, 'e')
    h.check(len(getattr(a, f)) == 0, 'un: initially empty')
    want, wo = [], []
    getattr(a, add + f)(*extra)
    want.extend(extra)
    for j in range(nb):
        if h.flag('pre%d' % j):
            getattr(a, add + f)(bs[j])
            want.append(bs[j])
    if h.flag('other'):
        getattr(other, add + f)(bs[0])
        wo.append(bs[0])
    for op in ops:
        if op == 'add':
            s = h.fix(h.sel('arg', nb), nb)
            h.assume(not any(bs[s] is x for x in want))
            getattr(a, add + f)(bs[s])
            want = want + [bs[s]]
        elif op == 'add2':
            s, t = h.fix(h.sel('arg', nb), nb), h.fix(h.sel('arg', nb), nb)
            h.assume(s != t and not any(bs[s] is x or bs[t] is x for x in want))
            getattr(a, add + f)(bs[s], bs[t])
            want = want + [bs[s], bs[t]]
        elif op == 'remove':
            s = h.fix(h.sel('arg', nb), nb)
            if h.flag('member'):
                h.assume(any(bs[s] is x for x in want))
                getattr(a, rem + f)(bs[s])
            else:                   # nothing changes
                h.assume(not any(bs[s] is x for x in want))
                try:
                    getattr(a, rem + f)(bs[s])
                except (ValueError, KeyError):
                    pass
            want = [x for x in want if x is not bs[s]]
        elif op == 'alias':         # the list of another object, or its own
            if h.flag('own'):
                setattr(a, f, getattr(a, f))
            else:
                setattr(a, f, getattr(other, f))
                want = list(wo)
                getattr(other, add + f)(extra2)
                wo.append(extra2)
        else:
            m = h.choice('len', nb + 1)
            args = [h.fix(h.sel('arg', nb), nb) for _ in range(m)]
            _distinct(h, args)
            want = [bs[s] for s in args]
            given = list(want)
            setattr(a, f, given)
            if h.flag('shared'):    # the caller's list, given to another object too
                setattr(other, f, given)
                wo = list(want)
                getattr(other, add + f)(extra2)
                wo.append(extra2)
            else:
                given[:] = []
    _same_list(h, getattr(a, f), want, '%s: list contents' % '/'.join(ops))
    _same_list(h, getattr(other, f), wo, '%s: list of another object' % '/'.join(ops))
    h.reach('/'.join(ops))
