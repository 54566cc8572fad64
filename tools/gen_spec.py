"""One-off generator of /verif/spec/cim.json (the committed oracle for the model layer).

Reads the Ecore models under Model/ and the generated classes, insists that they agree except
for the reviewed exceptions below, and writes one record per class. Checks never run this file
and never read /repo/Model: the committed JSON is the specification.
"""
import sys, json, importlib, os
sys.dont_write_bytecode = True
sys.path.insert(0, '/repo'); sys.path.insert(0, os.path.dirname(__file__))
from ecore import load
import CIM14.ENTSOE.Dynamics.IEC61970.Wires  # noqa (circular import order)
PROF = [('CIM15/CIM15', 'CIM15'), ('CIM14/CIM14', 'CIM14')] + \
    [('CIM15/CDPSM/' + x, 'CIM15.CDPSM.' + x) for x in ('Asset', 'Balanced', 'Connectivity', 'Geographical')] + \
    [('CIM14/CDPSM/' + x, 'CIM14.CDPSM.' + x) for x in ('Balanced', 'GIS_Connectivity', 'Unbalanced')] + \
    [('CIM14/' + a + '/' + x, 'CIM14.' + a + '.' + x) for a, l in (('CPSM', ('Equipment', 'StateVariables', 'Topology')), ('ENTSOE', ('Dynamics', 'Equipment', 'StateVariables', 'Topology'))) for x in l]
# Reviewed hand-written additions that the Ecore models lack (CIM15 only).
W = 'CIM15.IEC61970.Wires.'
EXC_REFS = {
    (W + 'ACLineSegment', 'ACLineSegmentPhases'): ['1N', 'CIM15.IEC61970.WiresPhaseModel.ACLineSegmentPhase', 'ACLineSegment'],
    (W + 'ACLineSegment', 'CurrentTemperatureCurves'): ['NN', W + 'CurrentTemperatureCurve', 'ACLineSegments'],
    # generic view of SequenceImpedance/PhaseImpedance; targets either impedance class
    (W + 'ACLineSegment', 'PerLengthImpedance'): ['N1', W + 'PerLengthSequenceImpedance', 'LineSegments'],
    (W + 'TransformerEnd', 'BaseVoltage'): ['N1', 'CIM15.IEC61970.Core.BaseVoltage', 'TransformerEnd'],
    ('CIM15.IEC61970.Core.BaseVoltage', 'TransformerEnd'): ['1N', W + 'TransformerEnd', 'BaseVoltage'],
    # OperationalLimitSet declares no inverse
    ('CIM15.IEC61970.Core.Equipment', 'OperationalLimitSet'): ['uN', 'CIM15.IEC61970.OperationalLimits.OperationalLimitSet', None],
}
EXTRA = {
    'CIM15.IEC61970.OperationalLimits.CheckPoint': {'Equipment': ['u1', 'CIM15.IEC61970.Core.Equipment', None]},
    'CIM15.IEC61970.OperationalLimits.VoltageCheckPoint': {
        'LowerLimitsCurve': ['u1', 'CIM15.IEC61970.OperationalLimits.VoltageTimeCurve', None],
        'UpperLimitsCurve': ['u1', 'CIM15.IEC61970.OperationalLimits.VoltageTimeCurve', None],
        'VoltageLimitSet': ['u1', 'CIM15.IEC61970.OperationalLimits.OperationalLimitSet', None]},
    'CIM15.IEC61970.OperationalLimits.VoltageTimeCurve': {},
    W + 'CurrentTemperatureCurve': {'ACLineSegments': ['NN', W + 'ACLineSegment', 'CurrentTemperatureCurves']},
    'CIM15.IEC61970.WiresPhaseModel.ACLineSegmentPhase': {'ACLineSegment': ['N1', W + 'ACLineSegment', 'ACLineSegmentPhases']},
}
EXTRA_ATTRS = {
    'CIM15.IEC61970.WiresPhaseModel.ACLineSegmentPhase': {'phase': ['str', 'C', 'SinglePhaseKind']},
    'CIM15.IEC61970.WiresPhaseModel.EnergyConsumerPhase': {'phase': ['str', 'C', 'SinglePhaseKind']},
}
out = {'classes': {}, 'packageMap': {}, 'nsURI': {}}
PT = {}
for path, mod in PROF:
    name, cl, en, dt = load('/repo/Model/' + path + '.ecore')
    def modname(p):
        c = cl[p]; pk = c['pkg']; pre = mod.split('.')[1:]
        if pk[:len(pre)] == pre: pk = pk[len(pre):]
        return '.'.join([mod] + pk + [c['name']])
    for p, c in cl.items():
        m = modname(p)
        k = getattr(importlib.import_module(m), c['name'])
        rec = {'name': c['name'], 'base': (k.__bases__[0].__module__ if k.__bases__[0] is not object else None), 'attrs': {}, 'refs': {}}
        esup = [modname(s) for s in c['sup']]
        if [b.__module__ for b in k.__bases__ if b is not object] != esup: print('base differs', m, esup, k.__bases__)
        feats = {f['name']: f for f in c['feats']}
        for a in k._attrs:
            t = k._attr_types[a]; d = k._defaults[a]; e = k._enums.get(a)
            rec['attrs'][a] = [t.__name__, d, e]
            f = feats.get(a)
            if f is None: print('attr not in ecore', m, a, t, d, e); continue
            et = f['type'].split('/')[-1]
            if e is None: PT.setdefault((et, t.__name__, type(d).__name__), []).append(m + '.' + a)
            elif e != et: print('enum differs', m, a, e, et)
            elif (f['type'].split()[-1]) not in en: print('not an enum', m, a, e)
            elif d not in en[f['type'].split()[-1]]: print('default not literal', m, a, e, d, en[f['type'].split()[-1]][:3])
        for a in list(feats):
            if feats[a]['kind'] == 'EAttribute' and a not in k._attrs: print('ecore attr missing', m, a)
        for r in k._refs:
            many = r in k._many_refs
            f = feats.get(r)
            if f is None:
                rec['refs'][r] = EXC_REFS[m, r]; continue
            if (f['upper'] != '1') != many: print('many differs', m, r)
            tgt = modname(f['type'].split()[-1])
            if not f['opp']: rec['refs'][r] = ['uN' if many else 'u1', tgt, None]; continue
            oc, on = f['opp'].rsplit('/', 1)
            of = [g for g in cl[oc]['feats'] if g['name'] == on][0]
            kind = ('N' if of['upper'] != '1' else '1') + ('N' if many else '1')  # inverse multiplicity, own multiplicity
            rec['refs'][r] = [{'11': '11', '1N': '1N', 'N1': 'N1', 'NN': 'NN'}[kind], modname(oc), on]
        for a in feats:
            if feats[a]['kind'] == 'EReference' and a not in k._refs: print('ecore ref missing', m, a, feats[a]['upper'], feats[a]['opp'])
        out['classes'][m] = rec
for c in out['classes'].values():     # names no Python program can use (Dynamics/Thing)
    for r in [r for r in c['refs'] if not r.isidentifier()]:
        del c['refs'][r]
for m, refs in EXTRA.items():
    k = getattr(importlib.import_module(m), m.split('.')[-1])
    assert sorted(k._refs) == sorted(refs), m
    out['classes'][m] = {'name': k.__name__, 'base': k.__bases__[0].__module__, 'attrs': {}, 'refs': refs}
for m, at in EXTRA_ATTRS.items():
    out['classes'][m]['attrs'].update(at)
for m, c in out['classes'].items():
    for r, (kind, t, inv) in c['refs'].items():
        if inv:
            b = out['classes'][t]['refs'][inv]
            assert b[0] == kind[::-1], (m, r, kind, b)
            assert b[1:] == [m, r] or r == 'PerLengthImpedance', (m, r, b)
for n, m in sorted(sys.modules.items()):
    if n.startswith('CIM1') and getattr(m, 'packageMap', None):
        out['packageMap'][n] = dict(sorted(m.packageMap.items())); out['nsURI'][n] = getattr(m, 'nsURI', None)
import collections, pkgutil
print(len(out['classes']), {k: (len(v), out['nsURI'][k]) for k, v in out['packageMap'].items()})
allm = set()
for root in ('CIM14', 'CIM15'):
    for top, dirs, files in os.walk('/repo/' + root):
        for f in files:
            if f.endswith('.py') and f != '__init__.py':
                allm.add(os.path.relpath(os.path.join(top, f), '/repo')[:-3].replace('/', '.'))
print('modules not in spec', sorted(allm - set(out['classes'])))
json.dump(out, open(os.path.join(os.path.dirname(__file__), '..', 'spec', 'cim.json'), 'w'), indent=0, sort_keys=True)
