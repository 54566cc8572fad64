import sys,os,json,collections,inspect,importlib
import xml.etree.ElementTree as ET
sys.dont_write_bytecode=True
sys.path.insert(0,'/repo')
XSI='{http://www.w3.org/2001/XMLSchema-instance}type'
def load(path):
    root=ET.parse(path).getroot()
    classes={};enums={};dts={}
    def walk(pkg,prefix):
        for c in pkg.findall('eClassifiers'):
            t=c.get(XSI); p='#//'+'/'.join(prefix+[c.get('name')])
            if t=='ecore:EClass':
                feats=[]
                for f in c.findall('eStructuralFeatures'):
                    feats.append(dict(kind=f.get(XSI).split(':')[1],name=f.get('name'),upper=f.get('upperBound','1'),type=f.get('eType'),opp=f.get('eOpposite'),default=f.get('defaultValueLiteral'),cont=f.get('containment')))
                classes[p]=dict(name=c.get('name'),sup=(c.get('eSuperTypes') or '').split(),feats=feats,pkg=prefix,abstract=c.get('abstract'))
            elif t=='ecore:EEnum': enums[p]=[l.get('name') for l in c.findall('eLiterals')]
            else: dts[p]=c.get('instanceClassName')
        for s in pkg.findall('eSubpackages'): walk(s,prefix+[s.get('name')])
    walk(root,[])
    return root.get('name'),classes,enums,dts
if __name__=='__main__':
    import CIM14.ENTSOE.Dynamics.IEC61970.Wires
    for path,mod in [('CIM15/CIM15','CIM15'),('CIM14/CIM14','CIM14')]+[('CIM15/CDPSM/'+x,'CIM15.CDPSM.'+x) for x in ('Asset','Balanced','Connectivity','Geographical')]+[('CIM14/CDPSM/'+x,'CIM14.CDPSM.'+x) for x in ('Balanced','GIS_Connectivity','Unbalanced')]+[('CIM14/'+a+'/'+x,'CIM14.'+a+'.'+x) for a,l in (('CPSM',('Equipment','StateVariables','Topology')),('ENTSOE',('Dynamics','Equipment','StateVariables','Topology'))) for x in l]:
        name,cl,en,dt=load('/repo/Model/'+path+'.ecore')
        print('==',path,name,len(cl),len(en),len(dt))
        for p,c in cl.items():
            m='.'.join([mod]+c['pkg']+[c['name']])
            try: k=getattr(importlib.import_module(m),c['name'])
            except Exception as e:
                print('  no module',m,repr(e)[:80]); continue
            attrs=[f['name'] for f in c['feats'] if f['kind']=='EAttribute']
            refs=[f['name'] for f in c['feats'] if f['kind']=='EReference']
            many=[f['name'] for f in c['feats'] if f['kind']=='EReference' and f['upper']!='1']
            if sorted(attrs)!=sorted(k._attrs) : print('  attrs',m,set(attrs)^set(k._attrs))
            if sorted(refs)!=sorted(k._refs) : print('  refs',m,set(refs)^set(k._refs))
            if sorted(many)!=sorted(k._many_refs) : print('  many',m,set(many)^set(k._many_refs))
            sup=[s.split('/')[-1] for s in c['sup']]
            if [b.__name__ for b in k.__bases__]!=sup: print('  sup',m,sup,k.__bases__)
