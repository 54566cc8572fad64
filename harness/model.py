"""The specification of the class model (spec/cim.json) and small helpers for the harnesses."""
import importlib
import json
import os

_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'cim.json')
with open(_path) as _f:
    SPEC = json.load(_f)
CLASSES = SPEC['classes']

# CIM15 compound data classes that derive from object directly: they take no UUID (finding F-compound).
# ACLineSegment: one impedance, seen through three names.
ALIAS = {'CIM15.IEC61970.Wires.ACLineSegment': {'PerLengthImpedance', 'SequenceImpedance', 'PhaseImpedance'}}
IMPEDANCE = frozenset(['PerLengthImpedance', 'SequenceImpedance', 'PhaseImpedance'])


_cache = {}


def cls(m):
    k = _cache.get(m)
    if k is None:
        k = getattr(importlib.import_module(m), CLASSES[m]['name'])
        _cache[m] = k
    return k


def lineage(m):
    """m, its base, ... up to the root."""
    out = []
    while m is not None:
        out.append(m)
        m = CLASSES[m]['base']
    return out


def rooted(m):
    """Does the class descend from Element (and so carry a UUID)?"""
    return CLASSES[lineage(m)[-1]]['name'] == 'Element'


def new(*args, **kw):
    """new(class [, uuid], **keywords)"""
    if len(args) > 1 and rooted(args[0]):
        kw['UUID'] = args[1]
    return cls(args[0])(**kw)


_feat = {}


def features(m):
    """All features, inherited ones included: name -> (owner, 'attr'|'ref', record); nearest owner wins."""
    r = _feat.get(m)
    if r is None:
        r = {}
        for k in reversed(lineage(m)):
            for a, rec in CLASSES[k]['attrs'].items():
                r[a] = (k, 'attr', rec)
            for f, rec in CLASSES[k]['refs'].items():
                r[f] = (k, 'ref', rec)
        _feat[m] = r
    return r


def shadowed(m):
    """Names declared by m or an ancestor and again by a nearer class of m's lineage."""
    seen, out = set(), set()
    for k in lineage(m):
        for n in list(CLASSES[k]['attrs']) + list(CLASSES[k]['refs']):
            if n in seen:
                out.add(n)
            seen.add(n)
    return out


def is_many(kind):
    return kind in ('1N', 'NN', 'uN')


def descends(m, anc):
    return anc in lineage(m)
