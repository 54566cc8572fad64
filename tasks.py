"""Which harnesses decide which property, with which parameters and bounds."""
import importlib
import itertools
import os
import sys

from harness import model, alpha
from harness.model import CLASSES, cls
from symx.driver import Task, REPO


def _path(k):
    return os.path.realpath(sys.modules[k.__module__].__file__)


def _safe_cls(m):
    try:
        return cls(m)
    except Exception:
        return None


BAD = []


def import_all():
    """Import (instrumented) every class of the specification and every module of the code under test."""
    bad = BAD
    del bad[:]
    for m in sorted(CLASSES):
        try:
            cls(m)
        except Exception as ex:
            bad.append((m, repr(ex)))
    from symx import driver
    for d, subs, fs in os.walk(os.path.join(driver.REPO, 'PyCIM')):
        subs[:] = sorted(s for s in subs if s not in ('Test', '__pycache__'))
        for f in sorted(fs):
            if f.endswith('.py'):
                n = os.path.relpath(os.path.join(d, f), driver.REPO)[:-3].replace(os.sep, '.')
                try:
                    importlib.import_module(n[:-9] if n.endswith('.__init__') else n)
                except Exception:       # the harnesses will find it
                    pass
    return bad


def pairs(kind):
    """(A, f, B, g) module/feature names of the associations whose A-end has this kind."""
    for m in sorted(CLASSES):
        for f in sorted(CLASSES[m]['refs']):
            k, t, g = CLASSES[m]['refs'][f]
            if k == kind:
                yield m, f, t, g


def _short(m):
    return m.replace('IEC61970.', '').replace('IEC61968.', '').replace('Informative.', '')


def _name(A, f, B, g):
    return '%s.%s~%s%s' % (A, f, B.split('.')[-1], '.' + g if g else '')


def groups(lst):
    """representative -> True for the first pair of each distinct implementation."""
    seen, reps = {}, set()
    for p in lst:
        A, f, B, g = p
        ka, kb = _safe_cls(A), _safe_cls(B)
        key = alpha.pair_key(ka, f, kb, g, _path) if ka and kb else (A, f, B, g)
        if key not in seen:
            seen[key] = p
            reps.add(p)
    return reps, len(seen)


def resolution_variants(lst):
    """Subclasses through which an association is reached by other code than in its declaring class."""
    out = []
    kids = {}
    for m in CLASSES:
        b = CLASSES[m]['base']
        if b:
            kids.setdefault(b, []).append(m)

    def below(m):
        for k in kids.get(m, ()):
            yield k
            for x in below(k):
                yield x

    def res(k, f):
        names = [f] + [p + f for p in ('get', 'set', 'add', 'remove', 'add_', 'remove_')]
        return [getattr(k, n, None) for n in names]

    def differs(k, base, f):
        a, b = res(k, f), res(base, f)
        if any(x is not y for x, y in zip(a, b)):
            return True
        # getters/setters overridden without a new property have no effect; dunders do
        return alpha.dunders(k) != alpha.dunders(base)
    for A, f, B, g in lst:
        ka, kb = _safe_cls(A), _safe_cls(B)
        if ka is None or kb is None:
            continue
        for s in below(A):
            if f in CLASSES[s]['refs'] or s in model.ALIAS and f in model.IMPEDANCE:
                continue
            if any(f in CLASSES[x]['refs'] for x in model.lineage(s)[:model.lineage(s).index(A)]):
                continue
            k = _safe_cls(s)
            if k is not None and differs(k, ka, f):
                out.append((s, f, B, g))
        if g:
            for s in below(B):
                if any(g in CLASSES[x]['refs'] for x in model.lineage(s)[:model.lineage(s).index(B)]):
                    continue
                k = _safe_cls(s)
                if k is not None and differs(k, kb, g):
                    out.append((A, f, s, g))
    return out


def collisions(lst):
    """Associations inherited by a class that declares another one under the same name (F-collision)."""
    out = []
    for A, f, B, g in lst:
        for m in sorted(CLASSES):
            lin = model.lineage(m)[:-1]
            if g and B in lin[1:] and any(g in CLASSES[x]['refs'] for x in lin[:lin.index(B)]):
                out.append((A, f, m, g))
            if A in lin[1:] and any(f in CLASSES[x]['refs'] for x in lin[:lin.index(A)]):
                out.append((m, f, B, g))
    return out


OPS2 = ('set', 'add', 'remove', 'list', 'alias')


def c02(tier):
    ts = []
    lst = list(pairs('N1'))
    reps, n = groups(lst)
    var = resolution_variants(lst)
    for p in lst + var:
        A, f, B, g = p
        pool = A == B
        base = dict(A=A, f=f, B=B, g=g)
        for op in OPS2:
            ts.append(Task('%s/%s' % (_name(*p), op), 'harness.assoc', 'n1', dict(base, ops=[op], pool=pool), budget=60))
    for p in collisions(lst):
        A, f, B, g = p
        for op in OPS2:
            ts.append(Task('%s/%s' % (_name(*p), op), 'harness.assoc', 'n1', dict(A=A, f=f, B=B, g=g, ops=[op]), budget=60, finding='F-collision'))
    for p in sorted(reps) + var[:40]:
        A, f, B, g = p
        base = dict(A=A, f=f, B=B, g=g)
        for op in OPS2:
            ts.append(Task('%s/3/%s' % (_name(*p), op), 'harness.assoc', 'n1', dict(base, ops=[op], na=3, pool=A == B), budget=200, weight=5))
            if A == B:
                ts.append(Task('%s/apart/%s' % (_name(*p), op), 'harness.assoc', 'n1', dict(base, ops=[op]), budget=60, weight=2))
            for big in (12, 40):
                ts.append(Task('%s/big%d/%s' % (_name(*p), big, op), 'harness.assoc', 'n1', dict(base, ops=[op], big=big), budget=120, weight=4))
            for op2 in OPS2:
                ts.append(Task('%s/2/%s-%s' % (_name(*p), op, op2), 'harness.assoc', 'n1', dict(base, ops=[op, op2], pool=A == B), budget=200, weight=6))
    if tier == 'thorough':
        for p in lst + var:
            A, f, B, g = p
            for op in OPS2:
                ts.append(Task('%s/t3/%s' % (_name(*p), op), 'harness.assoc', 'n1', dict(A=A, f=f, B=B, g=g, ops=[op], na=3, nb=2 if A != B else 3, pool=A == B), budget=200, weight=3)) if p not in reps else None
        for p in sorted(reps):
            A, f, B, g = p
            for op in OPS2:
                for op2 in OPS2:
                    ts.append(Task('%s/t32/%s-%s' % (_name(*p), op, op2), 'harness.assoc', 'n1', dict(A=A, f=f, B=B, g=g, ops=[op, op2], na=3, pool=A == B), budget=900, weight=50))
                    for op3 in OPS2:
                        ts.append(Task('%s/t23/%s-%s-%s' % (_name(*p), op, op2, op3), 'harness.assoc', 'n1', dict(A=A, f=f, B=B, g=g, ops=[op, op2, op3]), budget=900, weight=40))
    return ts, dict(associations=len(lst), distinct_implementations=n, overridden_variants=len(var))


OPS3 = ('add', 'remove', 'list', 'alias')


def c03(tier):
    ts = []
    lst = list(pairs('NN'))
    reps, n = groups(lst)
    var = resolution_variants(lst)
    for p in lst + var:
        A, f, B, g = p
        base = dict(A=A, f=f, B=B, g=g)
        for op in OPS3:
            ts.append(Task('%s/%s' % (_name(*p), op), 'harness.assoc', 'nn', dict(base, ops=[op], pool=A == B), budget=60))
    for p in collisions(lst):
        A, f, B, g = p
        for op in OPS3:
            ts.append(Task('%s/%s' % (_name(*p), op), 'harness.assoc', 'nn', dict(A=A, f=f, B=B, g=g, ops=[op]), budget=60, finding='F-collision'))
    for p in sorted(reps) + var[:40]:
        A, f, B, g = p
        base = dict(A=A, f=f, B=B, g=g)
        for op in OPS3:
            if A == B:
                ts.append(Task('%s/apart/%s' % (_name(*p), op), 'harness.assoc', 'nn', dict(base, ops=[op]), budget=60, weight=2))
            ts.append(Task('%s/3/%s' % (_name(*p), op), 'harness.assoc', 'nn', dict(base, ops=[op], na=2, nb=3), budget=200, weight=5))
            for big in (12, 40):
                ts.append(Task('%s/big%d/%s' % (_name(*p), big, op), 'harness.assoc', 'nn', dict(base, ops=[op], big=big), budget=120, weight=4))
            for op2 in OPS3:
                ts.append(Task('%s/2/%s-%s' % (_name(*p), op, op2), 'harness.assoc', 'nn', dict(base, ops=[op, op2], pool=A == B), budget=200, weight=6))
    if tier == 'thorough':
        for p in lst + var:
            A, f, B, g = p
            for op in OPS3:
                for op2 in OPS3:
                    if p not in reps:
                        ts.append(Task('%s/t2/%s-%s' % (_name(*p), op, op2), 'harness.assoc', 'nn', dict(A=A, f=f, B=B, g=g, ops=[op, op2], pool=A == B), budget=300, weight=5))
        for p in sorted(reps):
            A, f, B, g = p
            for op in OPS3:
                for op2 in OPS3:
                    ts.append(Task('%s/t3/%s-%s' % (_name(*p), op, op2), 'harness.assoc', 'nn', dict(A=A, f=f, B=B, g=g, ops=[op, op2], na=2, nb=3), budget=900, weight=40))
    return ts, dict(association_ends=len(lst), distinct_implementations=n, overridden_variants=len(var))


def c01(tier):
    ts = []
    lst = list(pairs('11'))
    reps, n = groups(lst)
    var = resolution_variants(lst)
    for p in lst + var:
        A, f, B, g = p
        for op in ('set', 'inv'):
            ts.append(Task('%s/%s' % (_name(*p), op), 'harness.assoc', 'one', dict(A=A, f=f, B=B, g=g, ops=[op]), budget=60))
    for p in sorted(reps) + var[:40]:
        A, f, B, g = p
        for op in ('set', 'inv'):
            ts.append(Task('%s/3/%s' % (_name(*p), op), 'harness.assoc', 'one', dict(A=A, f=f, B=B, g=g, ops=[op], na=3, nb=3), budget=200, weight=5))
            for op2 in ('set', 'inv'):
                ts.append(Task('%s/2/%s-%s' % (_name(*p), op, op2), 'harness.assoc', 'one', dict(A=A, f=f, B=B, g=g, ops=[op, op2]), budget=200, weight=6))
    if tier == 'thorough':
        for p in lst + var:
            A, f, B, g = p
            for op in ('set', 'inv'):
                for op2 in ('set', 'inv'):
                    for op3 in ('set', 'inv'):
                        ts.append(Task('%s/t3/%s-%s-%s' % (_name(*p), op, op2, op3), 'harness.assoc', 'one', dict(A=A, f=f, B=B, g=g, ops=[op, op2, op3]), budget=300, weight=8))
    return ts, dict(association_ends=len(lst), distinct_implementations=n, overridden_variants=len(var))


def c07(tier):
    ts = []
    l1, ln = list(pairs('u1')), list(pairs('uN'))
    for p in l1:
        A, f, B, _ = p
        ts.append(Task(_name(*p), 'harness.assoc', 'u1', dict(A=A, f=f, B=B, steps=2), budget=60))
        if tier == 'thorough':
            ts.append(Task(_name(*p) + '/t3', 'harness.assoc', 'u1', dict(A=A, f=f, B=B, steps=3, na=3, nb=3), budget=200))
    for p in ln:
        A, f, B, _ = p
        pre = ('add', 'remove') if (A.endswith('.Equipment') and f == 'OperationalLimitSet') else ('add_', 'remove_')
        ops = ('add', 'add2', 'remove', 'list', 'alias')
        for op in ops:
            base = dict(A=A, f=f, B=B, add=pre[0], rem=pre[1])
            ts.append(Task('%s/%s' % (_name(*p), op), 'harness.assoc', 'un', dict(base, ops=[op]), budget=60))
            ts.append(Task('%s/big/%s' % (_name(*p), op), 'harness.assoc', 'un', dict(base, ops=[op], big=20), budget=60))
            for op2 in ops:
                ts.append(Task('%s/%s-%s' % (_name(*p), op, op2), 'harness.assoc', 'un', dict(base, ops=[op, op2]), budget=60))
    return ts, dict(single_references=len(l1), list_references=len(ln))


def c04(tier):
    ts = []
    for m in sorted(CLASSES):
        n = len(CLASSES[m]['attrs']) + len(CLASSES[m]['refs'])
        if n or tier == 'thorough':
            ts.append(Task(m, 'harness.frame', 'frame_all', dict(m=m, own_only=tier != 'thorough'), budget=300, weight=n))
    return ts, dict(classes=len(ts))


def c05(tier):
    ts = []
    for m in sorted(CLASSES):
        n = len(model.features(m))
        ts.append(Task(m + '/defaults', 'harness.frame', 'defaults', dict(m=m), budget=60))
        if any(t == 'attr' for _, t, _ in model.features(m).values()):
            ts.append(Task(m + '/keywords', 'harness.frame', 'keywords', dict(m=m), budget=60))
            ts.append(Task(m + '/each', 'harness.frame', 'each_keyword', dict(m=m), budget=60, weight=1 + n // 8))
    return ts, dict(classes=len(CLASSES))


def c06(tier):
    ts = []
    for m in sorted(CLASSES):
        fs = model.features(m)
        refs = sorted(f for f in fs if fs[f][1] == 'ref')
        if not refs:
            continue
        ts.append(Task(m + '/all', 'harness.frame', 'construct_all', dict(m=m), budget=60, weight=3))
        for f in refs:
            if tier == 'thorough' or fs[f][0] == m or f in model.shadowed(m):
                ts.append(Task('%s/%s' % (m, f), 'harness.frame', 'construct_one', dict(m=m, f=f), budget=60))
    for m in model.ALIAS:
        ts.append(Task(m + '/impedance', 'harness.frame', 'impedance_conflict', dict(m=m), budget=60))
        for z in sorted(model.IMPEDANCE):
            ts.append(Task(m + '/all/' + z, 'harness.frame', 'construct_all', dict(m=m, impedance=z), budget=60))
    return ts, dict(classes=len(CLASSES))


# ------------------------------------------------------------------------------ reading
def readable():
    from harness import reader
    for m in sorted(CLASSES):
        p = reader.profile_of(m)
        if p is not None:
            yield m, p


def _r(ts, name, fn, params, **kw):
    kw.setdefault('budget', 120)
    ts.append(Task(name, 'harness.reader', fn, params, **kw))


C15, C14 = 'CIM15.IEC61970.', 'CIM14.IEC61970.'
TUPLES = [(C15 + 'Core.Terminal', C15 + 'Core.ConnectivityNode', 'ConnectivityNode'),
          (C15 + 'Core.VoltageLevel', C15 + 'Core.Substation', 'Substation'),
          (C14 + 'Core.Terminal', C14 + 'Topology.ConnectivityNode', 'ConnectivityNode'),
          ('CIM14.CPSM.Equipment.Core.VoltageLevel', 'CIM14.CPSM.Equipment.Core.Substation', 'Substation'),
          (C15 + 'Core.Substation', C15 + 'Core.VoltageLevel', 'VoltageLevels'),
          (C15 + 'Core.Terminal', C15 + 'StateVariables.SvPowerFlow', 'SvPowerFlow')]
MANY = [(C15 + 'Core.Equipment', None, None)]


def tuples():
    out = []
    for m, t, f in TUPLES:
        if m in CLASSES and t in CLASSES and f in model.features(m):
            out.append((m, t, f))
    from harness import reader
    for kind in ('NN', 'u1', 'uN', '11'):
        for m in sorted(CLASSES):
            hit = None
            if not m.startswith('CIM15.IEC') or reader.profile_of(m) is None or 'name' not in model.features(m):
                continue
            for f in sorted(CLASSES[m]['refs']):
                k, t, g = CLASSES[m]['refs'][f]
                if k == kind and t != m and reader.profile_of(t) and 'name' in model.features(t):
                    hit = (m, t, f)
                    break
            if hit:
                out.append(hit)
                break
    return out


def r01(tier):
    ts = []
    core = [C15 + 'Core.Substation', C15 + 'Core.Terminal', C15 + 'Wires.ACLineSegment']
    for shape in range(6):
        _r(ts, 'identifiers/%d' % shape, 'identifiers', dict(ms=core if shape not in (3, 5) else core[:2], shape=shape), budget=300, weight=20)
        _r(ts, 'ahead/%d' % shape, 'eager', dict(fn='identifiers', ms=core[:2], shape=shape), budget=300, weight=10)
        for m in (core[0], 'CIM14.IEC61970.Core.Substation'):
            _r(ts, 'descriptions/%s/%d' % (m, shape), 'descriptions', dict(m=m, shape=shape), budget=200, weight=10)
    for m, t, f in tuples():
        for shape in (0, 1, 2, 4):
            _r(ts, 'merged/%s.%s/%d' % (m, f, shape), 'merged', dict(m=m, t=t, f=f, shape=shape), budget=200, weight=10)
            if shape < 2:
                _r(ts, 'ahead/merged/%s.%s/%d' % (m, f, shape), 'eager', dict(fn='merged', m=m, t=t, f=f, shape=shape), budget=200, weight=10)
    for m, p in readable():
        if 'name' in model.features(m):
            _r(ts, 'object/' + m, 'identifiers', dict(ms=[m], shape=0))
        else:
            _r(ts, 'object/' + m, 'unnamed', dict(m=m))
    if tier == 'thorough':
        for shape in range(5):
            _r(ts, 'identifiers/4/%d' % shape, 'identifiers', dict(ms=core + [core[0]], shape=shape), budget=1500, weight=90)
    return ts, {}


def r02(tier):
    ts = []
    attrs = 0
    for m, p in readable():
        n = len(model.features(m))
        if any(x[1] == 'attr' for x in model.features(m).values()):
            _r(ts, 'attributes/' + m, 'attributes', dict(m=m), weight=1 + n / 20.)
            if tier == 'thorough' or CLASSES[m]['attrs']:
                _r(ts, 'two/' + m, 'two_of_a_class', dict(m=m), weight=1 + n / 20.)
        own = CLASSES[m]['attrs']
        for typ in ('int', 'float', 'bool'):
            for a in sorted(own):
                if own[a][0] == typ and own[a][2] is None:
                    attrs += 1
                    if typ == 'bool':
                        _r(ts, 'boolean/%s.%s' % (m, a), 'booleans', dict(m=m, a=a, space=tier == 'thorough' or m in reps_('bool')))
                    elif tier == 'thorough' or m in reps_(typ):
                        _r(ts, 'spelling/%s.%s' % (m, a), 'spelling', dict(m=m, a=a, typ=typ))
                        if typ == 'int':
                            _r(ts, 'digits/%s.%s' % (m, a), 'digits', dict(m=m, a=a, n=3))
                            _r(ts, 'digits8/%s.%s' % (m, a), 'digits', dict(m=m, a=a, n=8))
    n = 0
    for a, m1, m2 in like_named():
        if model.features(m1)[a][1] == 'attr' and model.features(m2)[a][1] == 'attr':
            n += 1
            _r(ts, 'like/%s/%s/%s' % (a, m1, m2), 'like_named', dict(m1=m1, m2=m2, a=a), weight=50)
    for m in (C15 + 'Core.Substation', C14 + 'Core.Substation', 'CIM15.IEC61968.Common.Status'):
        a = 'name' if 'name' in model.features(m) else 'reason'
        for k, pad, tail in ((1, 0, 0), (2, 0, 0), (3, 0, 0), (2, 3, 2), (1, 61, 1), (1, 253, 1), (1, 1021, 1), (1, 5000, 1), (4 if tier == 'quick' else 6, 0, 0)):
            _r(ts, 'text/%s/%d-%d-%d' % (m, k, pad, tail), 'text', dict(m=m, a=a, k=k, pad=pad, tail=tail), budget=200, weight=5)
    return ts, dict(classes=len(list(readable())), like_named_attributes=n)


def like_named():
    """(name, class, class): two classes of a version or profile whose features of this name differ in kind or type."""
    from harness import reader
    by = {}
    for m, p in readable():
        for a, (owner, what, rec) in model.features(m).items():
            if what == 'ref' and (reader.instance(rec[1], p) is None or a in model.shadowed(m) or
                                  rec[2] is not None and rec[2] in model.shadowed(rec[1]) or a in model.IMPEDANCE):
                continue
            k = (what, rec[0] if what == 'attr' else 'many' if model.is_many(rec[0]) else 'one', what == 'attr' and rec[2] is not None)
            s = by.setdefault((p, a), {}).setdefault(k, [])
            if owner == m or not s:
                s.append(m)
    for (p, a) in sorted(by):
        ks = sorted(by[p, a], key=str)
        for i in range(len(ks)):
            for j in range(i):
                x, y = by[p, a][ks[i]], by[p, a][ks[j]]
                yield a, x[0], y[0]


def r04(tier):
    ts = []
    n = 0
    for m, p in readable():
        for a, (owner, what, rec) in sorted(model.features(m).items()):
            if what == 'attr' and rec[2] is not None and (owner == m or tier == 'thorough'):
                n += 1
                _r(ts, '%s.%s' % (m, a), 'enumerations', dict(m=m, a=a))
    return ts, dict(enumeration_attributes=n)


def reps_(typ):
    out = []
    for m in sorted(CLASSES):
        if any(r[0] == typ and r[2] is None for r in CLASSES[m]['attrs'].values()):
            out.append(m)
    step = max(1, len(out) // 12)
    return set(out[::step])


def r03(tier):
    from harness import reader
    ts = []
    n = skip = 0
    for m, p in readable():
        for f, (owner, what, rec) in sorted(model.features(m).items()):
            if what != 'ref' or (owner != m and tier == 'quick' and f not in model.shadowed(m)):
                continue
            t = reader.instance(rec[1], p)
            if t is None or m in model.ALIAS and f in model.IMPEDANCE and f != 'PerLengthImpedance' and False:
                skip += 1
                continue
            n += 1
            fin = 'F-collision' if collides(m, f, t, rec[2]) else None
            _r(ts, 'reference/%s.%s' % (m, f), 'references', dict(m=m, t=t, f=f), finding=fin, weight=2)
            if rec[1] in model.lineage(m):
                _r(ts, 'itself/%s.%s' % (m, f), 'itself', dict(m=m, f=f), finding=fin)
        if any(w[1] == 'ref' for w in model.features(m).values()):
            fs = sorted(f for f, w in model.features(m).items() if w[1] == 'ref')
            _r(ts, 'dangling/' + m, 'dangling', dict(m=m, f=fs[len(m) % len(fs)]))
    for m, t, f in tuples():
        for shape in (0, 1, 6, 7):
            _r(ts, 'network/%s.%s/%d' % (m, f, shape), 'network', dict(m=m, t=t, f=f, shape=shape, n=2), budget=300, weight=20)
        if tier == 'thorough':
            _r(ts, 'network3/%s.%s' % (m, f), 'network', dict(m=m, t=t, f=f, shape=0, n=3), budget=1500, weight=90)
        _r(ts, 'ahead/references/%s.%s' % (m, f), 'eager', dict(fn='references', m=m, t=t, f=f), weight=10)
        _r(ts, 'ahead/network/%s.%s' % (m, f), 'eager', dict(fn='network', m=m, t=t, f=f, shape=0, n=2), budget=300, weight=10)
        if not model.is_many(model.features(m)[f][2][0]):
            for shape in (0, 1):
                _r(ts, 'conflicting/%s.%s/%d' % (m, f, shape), 'conflicting', dict(m=m, t=t, f=f, shape=shape), budget=200, weight=10)
        for k in (40, 150):
            _r(ts, 'large/%s.%s/%d' % (m, f, k), 'large', dict(m=m, t=t, f=f, n=k), budget=200, weight=20)
        _r(ts, 'ahead/large/%s.%s' % (m, f), 'eager', dict(fn='large', m=m, t=t, f=f, n=40), budget=200, weight=20)
    like = 0
    for a, m1, m2 in like_named():
        if not (model.features(m1)[a][1] == 'attr' and model.features(m2)[a][1] == 'attr'):
            like += 1
            _r(ts, 'like/%s/%s/%s' % (a, m1, m2), 'like_named', dict(m1=m1, m2=m2, a=a), weight=50)
    return ts, dict(references=n, without_a_class_in_the_same_profile=skip, like_named_features=like)


def collides(m, f, t, g):
    return f in model.shadowed(m) or (g is not None and g in model.shadowed(t))


def r05(tier):
    ts = []
    for m, p in readable():
        if 'name' in model.features(m) and (tier == 'thorough' or m in (C15 + 'Core.Substation', C15 + 'Core.Terminal', C14 + 'Core.Terminal', C14 + 'Core.Substation', 'CIM14.CPSM.Equipment.Core.Substation', 'CIM15.IEC61968.Assets.Asset')):
            _r(ts, 'unknown/' + m, 'unknown', dict(m=m), budget=300, weight=10)
            _r(ts, 'unknown2/' + m, 'unknown', dict(m=m, n=2), budget=300, weight=10)
            _r(ts, 'ahead/' + m, 'eager', dict(fn='unknown', m=m), budget=300, weight=10)
            _r(ts, 'similar/' + m, 'unknown', dict(m=m, other=reader_ns(m) + 'x#'), budget=300, weight=10)
            _r(ts, 'header/' + m, 'header', dict(m=m), budget=100, weight=5)
    for m, p in readable():
        if tier == 'thorough' or CLASSES[m]['attrs'] or CLASSES[m]['refs']:
            _r(ts, 'mismatched/' + m, 'mismatched', dict(m=m, every=tier == 'thorough'), weight=1 + len(model.features(m)) / 20.)
    return ts, {}


def reader_ns(m):
    from harness import reader
    return reader.URI[reader.profile_of(m)]


def r06(tier):
    from harness import reader
    ts = []
    ps = sorted(reader.PKG)
    for tag in ('Substation', 'Terminal', 'ConnectivityNode', 'AnalogValue', 'PowerTransformerEnd', 'TransformerWinding', 'Asset', 'WindTurbine'):
        _r(ts, 'detect/' + tag, 'detect', dict(tag=tag), budget=300, weight=20)
    for p in sorted(reader.PKG):
        if p not in ('CIM14', 'CIM15') or tier == 'thorough':
            _r(ts, 'explicit/' + p, 'explicit', dict(p=p), budget=600, weight=30)
        _r(ts, 'half/' + p, 'one_of_two', dict(p=p))
        _r(ts, 'maps/' + p, 'maps', dict(p=p))
    for i, p in enumerate(ps):
        for q in ps[:i]:
            if any(t in reader.PKG[q] and reader.PKG[q][t] != reader.PKG[p][t] for t in reader.PKG[p]):
                _r(ts, 'in turn/%s/%s' % (p, q), 'in_turn', dict(p=p, q=q), weight=5)
    for m, ex in BAD:
        _r(ts, 'import/' + m, 'importable', dict(m=m, failed=True))
    return ts, {}


def r07(tier):
    ts = []
    for m, t, f in tuples():
        _r(ts, 'sources/%s.%s' % (m, f), 'sources', dict(m=m, t=t, f=f), budget=200, weight=5)
        _r(ts, 'ahead/%s.%s' % (m, f), 'eager', dict(fn='sources', m=m, t=t, f=f), budget=200, weight=5)
        m2 = m.replace('CIM15', 'CIM14') if m.startswith('CIM15') else m.replace('CIM14', 'CIM15')
        for other in sorted(set([m2 if m2 in CLASSES else C14 + 'Core.Substation', 'CIM14.CPSM.Equipment.Core.Substation', m])):
            _r(ts, 'independent/%s.%s/%s' % (m, f, other), 'independent', dict(m=m, t=t, f=f, m2=other), budget=300, weight=20)
        if m2 in CLASSES and 'name' in model.features(m2):
            _r(ts, 'reused/%s.%s' % (m, f), 'reused', dict(m=m, m2=m2), budget=300, weight=20)
    return ts, {}


def r08(tier):
    from harness import reader
    ts = []
    for m, t, f in tuples():
        for shape in (0, 1, 2) if tier == 'quick' else range(6):
            _r(ts, 'parts/%s.%s/%d' % (m, f, shape), 'parts', dict(m=m, t=t, f=f, shape=shape), budget=300, weight=20)
            _r(ts, 'ahead/%s.%s/%d' % (m, f, shape), 'eager', dict(fn='parts', m=m, t=t, f=f, shape=shape), budget=300, weight=20)
            _r(ts, 'filed/%s.%s/%d' % (m, f, shape), 'filed', dict(m=m, t=t, f=f, shape=shape), budget=300, weight=20)
    for m, p in readable():
        for f in sorted(f for f, w in model.features(m).items() if w[1] == 'ref'):
            rec = model.features(m)[f][2]
            t = reader.instance(rec[1], p)
            if t is not None and t != m and not collides(m, f, t, rec[2]) and (tier == 'thorough' or model.features(m)[f][0] == m):
                _r(ts, 'reference/%s.%s' % (m, f), 'parts', dict(m=m, t=t, f=f, shape=-1, n=1))
        if any(a != 'UUID' for a in CLASSES[m]['attrs']):
            _r(ts, 'prior/' + m, 'prior', dict(m=m, every=tier == 'thorough'))
    return ts, {}


def r09(tier):
    ts = []
    for m, t, f in tuples():
        for start in (False, True):
            _r(ts, 'broken/%s.%s/%s' % (m, f, start), 'broken', dict(m=m, t=t, f=f, start=start), budget=300, weight=20)
            _r(ts, 'ahead/%s.%s/%s' % (m, f, start), 'eager', dict(fn='broken', m=m, t=t, f=f, start=start), budget=300, weight=20)
    for typ in ('int', 'float'):
        for m in sorted(reps_(typ)):
            if not any(m == k for k, p in readable()):
                continue
            a = sorted(a for a, r in CLASSES[m]['attrs'].items() if r[0] == typ and r[2] is None)[0]
            for n in (1, 2) if tier == 'quick' else (1, 2, 3):
                _r(ts, 'malformed/%s.%s/%d' % (m, a, n), 'malformed', dict(m=m, a=a, typ=typ, n=n), budget=300, weight=10 ** n)
    return ts, {}


def r10(tier):
    ts = []
    tl = tuples()
    for k, (m, t, f) in enumerate(tl):
        for j, other in enumerate((tl[(k + 1) % len(tl)], (m, t, f), tl[2 if m.startswith('CIM15') else 0])):
            for lo in range(0, 29, 7):
                _r(ts, 'at once/%s.%s/%d/%d' % (m, f, j, lo), 'at_once', dict(m=m, t=t, f=f, m2=other[0], t2=other[1], f2=other[2], lo=lo, hi=lo + 7,
                   pauses=[99] + list(range(1, 36, 3 if tier == 'quick' else 1))), budget=600, weight=20)
    return ts, {}


def r11(tier):
    ts = []
    for m, t, f in tuples():
        for shape in (0, 1, 2, 3) if tier == 'quick' else range(8):
            _r(ts, 'reported/%s.%s/%d' % (m, f, shape), 'reported', dict(m=m, t=t, f=f, shape=shape), budget=300, weight=20)
        for first in range(5):
            _r(ts, 'two/%s.%s/%d' % (m, f, first), 'reported', dict(m=m, t=t, f=f, shape=2 if tier == 'quick' else 1, n=2, first=first), budget=300, weight=30)
    return ts, {}


# ------------------------------------------------------------------------------ writing
def writable():
    for m in sorted(CLASSES):
        if CLASSES[m]['name'] != 'Element':
            yield m


def _w(ts, name, fn, params, module='harness.writer', **kw):
    kw.setdefault('budget', 120)
    ts.append(Task(name, module, fn, params, **kw))


TRIPLE = [C15 + 'Core.Substation', C15 + 'Core.Terminal', C15 + 'Wires.ACLineSegment']
ENTITY = '&#;19alt<'
TEXTS = ((1, 0, 0), (2, 0, 0), (1, 3, 1), (1, 61, 1), (1, 253, 1), (1, 1021, 1), (1, 8190, 1))


def w01(tier):
    ts = []
    for shape in range(5):
        _w(ts, 'objects/%d' % shape, 'objects', dict(ms=TRIPLE[:2], shape=shape), budget=300, weight=20)
        _w(ts, 'objects14/%d' % shape, 'objects', dict(ms=['CIM14.IEC61970.Core.Substation'], shape=shape), budget=300, weight=5)
    _w(ts, 'objects2', 'objects', dict(ms=TRIPLE[:1], shape=0, n=2), budget=300, weight=20)
    _w(ts, 'objects3', 'objects', dict(ms=TRIPLE[:1], shape=0, n=3), budget=600, weight=60)
    for m, a in ((TRIPLE[0], 'name'), (C14 + 'Core.Substation', 'name'), ('CIM15.IEC61968.Common.Status', 'reason')):
        for k, pad, tail in TEXTS:
            for enc in ('utf-8', 'us-ascii'):
                _w(ts, 'text/%s/%d-%d-%d/%s' % (m, k, pad, tail, enc), 'text', dict(m=m, a=a, k=k, pad=pad, tail=tail, encoding=enc), budget=200, weight=5 + pad / 500.)
        for enc in ('utf-8', 'us-ascii', 'iso-8859-1', 'utf-16'):
            for k in (1, 2):
                _w(ts, 'file/%s/%d/%s' % (m, k, enc), 'text', dict(m=m, a=a, k=k, pad=0, tail=0, encoding=enc, kind='path'), budget=200, weight=10)
        for enc in ('utf-8', 'us-ascii'):
            _w(ts, 'entities/%s/%s' % (m, enc), 'text', dict(m=m, a=a, k=4, pad=0, tail=0, encoding=enc, ok=ENTITY), budget=200, weight=20)
    for m, t, f in tuples():
        _w(ts, 'entities/%s.%s' % (m, f), 'identifier_text', dict(m=m, t=t, f=f, n=4, ok=ENTITY), budget=200, weight=20)
        for n in (1, 2):
            _w(ts, 'identifiers/%s.%s/%d' % (m, f, n), 'identifier_text', dict(m=m, t=t, f=f, n=n), budget=200, weight=10 * n)
        for n in (40, 150):
            _w(ts, 'large/%s.%s/%d' % (m, f, n), 'large', dict(m=m, t=t, f=f, n=n), budget=200, weight=20)
    for m in writable():
        _w(ts, 'object/' + m, 'objects' if 'name' in model.features(m) else 'bare_object', dict(ms=[m], shape=0) if 'name' in model.features(m) else dict(m=m))
    _w(ts, 'empty', 'empty', {})
    if tier == 'thorough':
        _w(ts, 'objects4', 'objects', dict(ms=TRIPLE[:1], shape=0, n=4), budget=1500, weight=90)
        _w(ts, 'objects-3', 'objects', dict(ms=TRIPLE, shape=0), budget=1500, weight=90)
        for k in (3, 4):
            _w(ts, 'text/%d' % k, 'text', dict(m=TRIPLE[0], a='name', k=k, pad=0, tail=0, encoding='utf-8'), budget=1500, weight=90)
    return ts, {}


def w02(tier):
    ts = []
    for m in writable():
        if any(x[1] == 'attr' for x in model.features(m).values()):
            _w(ts, m, 'attributes', dict(m=m), weight=1 + len(model.features(m)) / 10.)
    return ts, dict(classes=len(ts))


def pools():
    """(class, association end) where both ends can be objects of that class, itself included."""
    for m in sorted(CLASSES):
        for f in sorted(CLASSES[m]['refs']):
            t = CLASSES[m]['refs'][f][1]
            if t in model.lineage(m):
                yield m, f
            elif m in model.lineage(t):
                yield t, f


def w03(tier):
    ts = []
    for m, f in pools():
        if _safe_cls(m) and m.split('.')[0] in ('CIM14', 'CIM15'):
            x = model.features(m)[f][2]
            _w(ts, 'pool/%s.%s' % (m, f), 'pool', dict(m=m, f=f, n=2 if tier == 'quick' else 3), weight=3,
               finding='F-collision' if collides(m, f, m, x[2]) else None)
    for m in writable():
        fs = [f for f, x in model.features(m).items() if x[1] == 'ref']
        if fs:
            bad = any(collides(m, f, model.features(m)[f][2][1], model.features(m)[f][2][2]) for f in fs)
            _w(ts, 'all/' + m, 'all_references', dict(m=m), weight=1 + len(fs) / 5., finding='F-collision' if bad else None)
    for m, t, f in tuples():
        _w(ts, 'graph/%s.%s' % (m, f), 'graph', dict(m=m, t=t, f=f, n=3), budget=200, weight=10)
    return ts, {}


def w04(tier):
    ts = []
    for enc in ('us-ascii', 'utf-8'):
        for n in (1, 2):
            _w(ts, 'calls/%d/%s' % (n, enc), 'calls', dict(n=n, encoding=enc, chars=None if n == 1 or tier == 'thorough' else 'a&<\r' if enc == 'utf-8' else '"&\u00e9'), budget=400 if tier == 'quick' else 3000, weight=10 ** n, max_paths=4000000)
        for n in (3, 4):
            if n == 3 or tier == 'thorough':
                _w(ts, 'sequence/%d/%s' % (n, enc), 'calls', dict(n=n, encoding=enc, chars='a&', lean=True), budget=400 if n == 3 else 3000, weight=10 ** n, max_paths=4000000)
        for fn in ('escape_cdata', 'escape_attrib'):
            for n in (4, 5):
                _w(ts, '%s/entities%d/%s' % (fn, n, enc), 'escapes', dict(fn=fn, n=n, encoding=enc, ok='&#;1lt'), budget=300, weight=20)
            for n in (1, 2, 3):
                _w(ts, '%s/%d/%s' % (fn, n, enc), 'escapes', dict(fn=fn, n=n, encoding=enc), budget=300, weight=20)
    for fn in ('escape_cdata', 'escape_attrib'):
        _w(ts, '%s/none' % fn, 'escapes', dict(fn=fn, n=2, encoding=None), budget=300, weight=20)
    _w(ts, 'declaration', 'declaration', {})
    _w(ts, 'unbalanced', 'unbalanced', {})
    if tier == 'thorough':
        _w(ts, 'calls/3', 'calls', dict(n=3, encoding='utf-8', chars='a&<\r"'), budget=3000, weight=10 ** 5, max_paths=4000000)
        for fn in ('escape_cdata', 'escape_attrib'):
            _w(ts, '%s/5' % fn, 'escapes', dict(fn=fn, n=5, encoding='utf-8'), budget=2500, weight=10 ** 4, max_paths=4000000)
    return ts, {}


def w05(tier):
    ts = []
    for m, t, f in tuples():
        _w(ts, 'pure/%s.%s' % (m, f), 'pure', dict(m=m, t=t, f=f), budget=200, weight=10)
        for lo in range(0, 96, 12):
            _w(ts, 'refused/%s.%s/%d' % (m, f, lo), 'refused', dict(m=m, t=t, f=f, lo=lo - 1 if lo == 0 else lo, hi=lo + 12), budget=200, weight=10)
        _w(ts, 'stream/%s.%s' % (m, f), 'stream', dict(m=m, t=t, f=f), budget=200, weight=10)
        _w(ts, 'between/%s.%s' % (m, f), 'between', dict(m=m, t=t, f=f, ms=[C15 + 'Core.Terminal', C14 + 'Core.Substation', 'CIM14.CPSM.Equipment.Core.Substation', 'CIM15.IEC61968.Assets.Asset']), budget=200, weight=10)
    _w(ts, 'empty', 'empty', {})
    if tier == 'thorough':
        for m in writable():
            fs = sorted(f for f, x in model.features(m).items() if x[1] == 'ref' and x[0] == m)
            for f in fs:
                _w(ts, 'pure-all/%s.%s' % (m, f), 'pure', dict(m=m, t=model.features(m)[f][2][1], f=f), budget=60)
    return ts, {}


def t01(tier):
    ts = []
    rt = 'harness.roundtrip'
    for m, p in readable():
        if any(x[1] == 'attr' for x in model.features(m).values()):
            _w(ts, m, 'attributes', dict(m=m), module=rt, weight=1 + len(model.features(m)) / 10.)
    for m, a in ((TRIPLE[0], 'name'), (C14 + 'Core.Substation', 'name'), ('CIM15.IEC61968.Common.Status', 'reason')):
        for k, pad, tail in TEXTS:
            _w(ts, 'text/%s/%d-%d-%d' % (m, k, pad, tail), 'text', dict(m=m, a=a, k=k, pad=pad, tail=tail), module=rt, budget=200, weight=5 + pad / 500.)
        _w(ts, 'entities/%s' % m, 'text', dict(m=m, a=a, k=4, pad=0, tail=0, ok=ENTITY), module=rt, budget=200, weight=20)
    return ts, {}


def t02(tier):
    ts = []
    rt = 'harness.roundtrip'
    from harness import reader
    for m, p in readable():
        fs = [f for f, x in model.features(m).items() if x[1] == 'ref' and reader.instance(x[2][1], p)]
        if not fs:
            continue
        bad = any(collides(m, f, model.features(m)[f][2][1], model.features(m)[f][2][2]) for f in fs)
        _w(ts, 'all/' + m, 'all_references', dict(m=m), module=rt, weight=1 + len(fs) / 5., finding='F-collision' if bad else None)
        for f in fs:
            x = model.features(m)[f]
            if x[0] == m or tier == 'thorough':
                _w(ts, 'one/%s.%s' % (m, f), 'one_reference', dict(m=m, f=f), module=rt,
                   finding='F-collision' if collides(m, f, x[2][1], x[2][2]) else None)
    by = {}
    for m, p in readable():
        key = str(sorted((f, x[1], x[2][0]) for f, x in model.features(m).items()))
        if not any(collides(m, f, x[2][1], x[2][2]) for f, x in model.features(m).items() if x[1] == 'ref'):
            by.setdefault(CLASSES[m]['name'], {}).setdefault(key, m)
    for n in sorted(by):
        ms = sorted(by[n].values())
        if len(ms) > 1:
            _w(ts, 'in turn/' + n, 'in_turn', dict(ms=ms), module=rt, weight=4)
    for m, f in pools():
        if reader.profile_of(m):
            _w(ts, 'pool/%s.%s' % (m, f), 'pool', dict(m=m, f=f, n=2 if tier == 'quick' else 3), module=rt, weight=3,
               finding='F-collision' if collides(m, f, m, model.features(m)[f][2][2]) else None)
    for m, t, f in tuples():
        for shape in range(5):
            _w(ts, 'identifiers/%s.%s/%d' % (m, f, shape), 'names_and_ids', dict(m=m, t=t, f=f, shape=shape, n=1), module=rt, budget=200, weight=5)
        _w(ts, 'names/%s.%s' % (m, f), 'names_and_ids', dict(m=m, t=t, f=f, shape=0, n=2), module=rt, budget=300, weight=10)
        for n in (40, 150):
            _w(ts, 'large/%s.%s/%d' % (m, f, n), 'large', dict(m=m, t=t, f=f, n=n), module=rt, budget=200, weight=20)
    return ts, {}


SHAPES = [(), ((),), ((), ()), (((),),), ((), ((),)), (((), ()),), ((((),),),)]


def p01(tier):
    ts = []
    hp = 'harness.pretty'
    for n, s in enumerate(SHAPES if tier == 'thorough' else SHAPES[:5]):
        k = 0 if n < 3 else 2 if n < 5 else 4
        for fixed in itertools.product(range(3), repeat=k):
            _w(ts, 'indent/%d%s' % (n, ''.join('/%d' % x for x in fixed)), 'indent', dict(shape=s, fixed=fixed), module=hp, budget=300, weight=10 * n, max_paths=2000000)
        for kind in ('stream', 'path', 'named'):
            if n < 4 and (kind != 'named' or n < 3) or tier == 'thorough' and kind != 'named':
                for fixed in itertools.product(range(3), repeat=k):
                    _w(ts, 'print/%d/%s%s' % (n, kind, ''.join('/%d' % x for x in fixed)), 'printed', dict(shape=s, kind=kind, fixed=fixed), module=hp, budget=300, weight=10 * n)
    return ts, {}


def w06(tier):
    ts = []
    tl = tuples()
    top = 28
    for k, (m, t, f) in enumerate(tl):
        for j, other in enumerate((tl[(k + 2) % len(tl)], (m, t, f))):
            for lo in range(0, top, 7):
                _w(ts, '%s.%s/%d/%d' % (m, f, j, lo), 'at_once', dict(m=m, t=t, f=f, m2=other[0], t2=other[1], f2=other[2], lo=lo, hi=lo + 7, shared=j == 1,
                   pauses=[99] + list(range(2, top, 3 if tier == 'quick' else 1))), budget=600, weight=20)
    return ts, {}


BUILDERS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07,
                R01=r01, R02=r02, R03=r03, R04=r04, R05=r05, R06=r06, R07=r07, R08=r08, R09=r09, R10=r10, R11=r11,
                W01=w01, W02=w02, W03=w03, W04=w04, W05=w05, W06=w06, T01=t01, T02=t02, P01=p01)
