"""Planted bugs (see mkseed.py)."""
RD, WR, SX, PP = 'PyCIM/RDFXMLReader.py', 'PyCIM/RDFXMLWriter.py', 'PyCIM/SimpleXMLWriter.py', 'PyCIM/PrettyPrintXML.py'
DOC = '''
from PyCIM import cimread
def read(body, ns="http://iec.ch/TC57/2010/CIM-schema-cim15#", extra="", **kw):
    s = ('<?xml version="1.0"?>\\n<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:cim="%s"%s>%s</rdf:RDF>' % (ns, extra, body))
    return cimread(io.BytesIO(s.encode("utf-8")), **kw)
'''
RT = '''
from PyCIM import cimread, cimwrite
def write(d):
    f = tempfile.NamedTemporaryFile("w+", suffix=".xml", encoding="utf-8")
    cimwrite(d, f); f.flush(); f.seek(0)
    return f.read()
def back(d):
    return cimread(io.BytesIO(write(d).encode("utf-8")))
'''
SEEDS = [
dict(id='s01', property='C01', edits=[('CIM15/IEC61970/Core/Terminal.py',
 '            self._SvPowerFlow.Terminal = None\n            self._SvPowerFlow._Terminal = self',
 '            self._SvPowerFlow._Terminal = self')],
 demo='''
from CIM15.IEC61970.Core.Terminal import Terminal
from CIM15.IEC61970.StateVariables.SvPowerFlow import SvPowerFlow
a, b, p = Terminal(), Terminal(), SvPowerFlow()
a.SvPowerFlow = p
b.SvPowerFlow = p
assert b.SvPowerFlow is p and p.Terminal is b and a.SvPowerFlow is None
''', needs='a one-to-one partner that already has another partner is assigned from this side', breaks='the displaced terminal keeps a power flow that belongs to another terminal'),
dict(id='s02', property='C02', edits=[('CIM15/IEC61970/Core/Terminal.py',
 'filtered = [x for x in self.ConnectivityNode.Terminals if x != self]',
 'filtered = [x for x in self.ConnectivityNode.Terminals if x.UUID != self.UUID]')],
 demo='''
from CIM15.IEC61970.Core.Terminal import Terminal
from CIM15.IEC61970.Core.ConnectivityNode import ConnectivityNode
n = ConnectivityNode(UUID="n")
a, b = Terminal(UUID="t"), Terminal(UUID="t")
a.ConnectivityNode = n
b.ConnectivityNode = n
a.ConnectivityNode = None
assert a.ConnectivityNode is None and b.ConnectivityNode is n
assert len(n.Terminals) == 1 and n.Terminals[0] is b
''', needs='two terminals with the same UUID at one node, one of which is moved away', breaks='the node stops listing a terminal that still refers to it'),
dict(id='s03', property='C02', edits=[('CIM14/IEC61970/Core/Terminal.py',
 "            filtered = [x for x in self.ConnectivityNode.Terminals if x != self]\n            self._ConnectivityNode._Terminals = filtered",
 "            if self in self._ConnectivityNode._Terminals:\n                self._ConnectivityNode._Terminals.remove(self)")],
 demo='''
from CIM14.IEC61970.Core.Terminal import Terminal
from CIM14.IEC61970.Core.ConnectivityNode import ConnectivityNode
n, m = ConnectivityNode(), ConnectivityNode()
ts = [Terminal() for _ in range(4)]
n.Terminals = ts
n.Terminals = [ts[3]]
assert n.Terminals == [ts[3]], n.Terminals
assert [t.ConnectivityNode for t in ts] == [None, None, None, n]
''', needs='a list of two or more terminals is replaced: the list is changed in place while the setter iterates over it', breaks='every second previous member keeps referring to the node and being listed'),
dict(id='s04', property='C03', edits=[('CIM15/IEC61968/AssetModels/ShortCircuitTest.py', "            if self not in obj._GroundedEndShortCircuitTests:", "            if not obj._GroundedEndShortCircuitTests:")],
 demo='''
from CIM15.IEC61968.AssetModels.ShortCircuitTest import ShortCircuitTest
from CIM15.IEC61968.AssetModels.TransformerEndInfo import TransformerEndInfo
e = TransformerEndInfo(); a, b = ShortCircuitTest(), ShortCircuitTest()
a.addGroundedEnds(e)
b.addGroundedEnds(e)
assert a.GroundedEnds == [e] and b.GroundedEnds == [e]
assert len(e.GroundedEndShortCircuitTests) == 2
''', needs='a winding that another test lists already is added to a second test', breaks='the winding does not list the second test'),
dict(id='s05', property='C04', edits=[('CIM14/ENTSOE/Equipment/Core/ConnectivityNode.py',
 "        self._Terminals = []\n        self.Terminals = [] if Terminals is None else Terminals",
 "        self.Terminals = [] if Terminals is None else Terminals"),
 ('CIM14/ENTSOE/Equipment/Core/ConnectivityNode.py', "    def getTerminals(self):", "    _Terminals = []\n\n    def getTerminals(self):")],
 demo='''
from CIM14.ENTSOE.Equipment.Core.ConnectivityNode import ConnectivityNode
from CIM14.ENTSOE.Equipment.Core.Terminal import Terminal
n, m = ConnectivityNode(), ConnectivityNode()
t = Terminal()
t.ConnectivityNode = n
assert n.Terminals == [t] and m.Terminals == [] and ConnectivityNode().Terminals == []
''', needs='two nodes of the ENTSO-E profile in one process', breaks='all nodes share one list of terminals until it is replaced'),
dict(id='s06', property='C05', edits=[('CIM14/CPSM/Equipment/Wires/ACLineSegment.py', "        self.b0ch = b0ch", "        self.b0ch = bch")],
 demo='''
from CIM14.CPSM.Equipment.Wires.ACLineSegment import ACLineSegment
a = ACLineSegment(bch=2.5, b0ch=7.5)
assert (a.bch, a.b0ch) == (2.5, 7.5)
''', needs='an ACLineSegment of the CPSM profile made with bch or b0ch keywords', breaks='the zero sequence susceptance is lost'),
dict(id='s07', property='C06', edits=[('CIM14/CDPSM/Unbalanced/IEC61970/Core/Terminal.py', "        self.ConductingEquipment = ConductingEquipment", "        self._ConductingEquipment = ConductingEquipment")],
 demo='''
from CIM14.CDPSM.Unbalanced.IEC61970.Core.Terminal import Terminal
from CIM14.CDPSM.Unbalanced.IEC61970.Core.ConductingEquipment import ConductingEquipment
e = ConductingEquipment()
t = Terminal(ConductingEquipment=e)
assert t.ConductingEquipment is e and e.Terminals == [t]
''', needs='the equipment of a terminal given at construction', breaks='the equipment does not list the terminal'),
dict(id='s08', property='C06', edits=[('CIM15/IEC61970/Core/Terminal.py', """        self.SvPowerFlow = SvPowerFlow
""", """        if SvPowerFlow is None or SvPowerFlow.Terminal is None:
            self.SvPowerFlow = SvPowerFlow
""")],
 demo='''
from CIM15.IEC61970.Core.Terminal import Terminal
from CIM15.IEC61970.StateVariables.SvPowerFlow import SvPowerFlow
p = SvPowerFlow()
a = Terminal(SvPowerFlow=p)
b = Terminal(SvPowerFlow=p)
assert b.SvPowerFlow is p and p.Terminal is b and a.SvPowerFlow is None
''', needs='a power flow given at construction that belongs to another terminal', breaks='the reference given at construction is ignored'),
dict(id='s09', property='C07', edits=[('CIM14/IEC61970/Protection/ProtectionEquipment.py', "            self.ProtectedSwitches.append(obj)", "            if obj.UUID not in [x.UUID for x in self.ProtectedSwitches]:\n                self.ProtectedSwitches.append(obj)")],
 demo='''
from CIM14.IEC61970.Protection.ProtectionEquipment import ProtectionEquipment
from CIM14.IEC61970.Wires.ProtectedSwitch import ProtectedSwitch
e = ProtectionEquipment(); a, b = ProtectedSwitch(UUID="s"), ProtectedSwitch(UUID="s")
e.add_ProtectedSwitches(a, b)
assert len(e.ProtectedSwitches) == 2 and e.ProtectedSwitches[1] is b
e.remove_ProtectedSwitches(a)
assert e.ProtectedSwitches == [b]
''', needs='two switches with the same UUID', breaks='an added object is not in the list'),
dict(id='s10', property='R01', edits=[(RD, "                uuid = elem.get(\"{%s}about\" % ns_rdf)\n                if uuid is not None:\n                    uuid = uuid[1:]\n                    if", "                uuid = elem.get(\"{%s}about\" % ns_rdf)\n                if uuid is not None:\n                    uuid = uuid.strip(\"#\")\n                    if"),
 (RD, '                if uuid is not None:\n                    uuid = uuid[1:]\n            if', '                if uuid is not None:\n                    uuid = uuid.strip("#")\n            if')],
 demo=DOC + '''
d = read('<cim:Substation rdf:about="##a#"><cim:IdentifiedObject.name>n</cim:IdentifiedObject.name></cim:Substation>'
         '<cim:Bay rdf:ID="b"><cim:Bay.Substation rdf:resource="##a#"/></cim:Bay>')
assert sorted(d) == ["#a#", "b"] and d["#a#"].UUID == "#a#" and d["b"].Substation is d["#a#"]
''', needs='an rdf:about identifier that itself starts or ends with "#"', breaks='the object is filed under another identifier'),
dict(id='s11', property='R02', edits=[(RD, 'setattr(obj, attr, typ(elem.text))', 'setattr(obj, attr, typ(elem.text and elem.text.strip()))')],
 demo=DOC + '''
d = read('<cim:Substation rdf:ID="a"><cim:IdentifiedObject.name> n </cim:IdentifiedObject.name></cim:Substation>')
assert d["a"].name == " n ", repr(d["a"].name)
''', needs='a string with leading or trailing white space', breaks='white space of string attributes is lost'),
dict(id='s12', property='R02', edits=[(RD, '    # Reset stream\n    if hasattr(source, "seek"):\n        source.seek(0)\n\n    ## Second pass', '    # Reset stream\n    if hasattr(source, "seek"):\n        source.seek(0)\n\n    # Values that were converted before.\n    types = {}\n\n    ## Second pass'),
 (RD, 'setattr(obj, attr, typ(elem.text))', 'setattr(obj, attr, types.setdefault((attr, elem.text), typ(elem.text)))')],
 demo=DOC + '''
from CIM15 import packageMap
# The attribute "value" has different types in different classes.
d = read('<cim:AnalogValue rdf:ID="a"><cim:AnalogValue.value>7</cim:AnalogValue.value></cim:AnalogValue>'
         '<cim:DiscreteValue rdf:ID="b"><cim:DiscreteValue.value>7</cim:DiscreteValue.value></cim:DiscreteValue>'
         '<cim:StringMeasurementValue rdf:ID="c"><cim:StringMeasurementValue.value>7</cim:StringMeasurementValue.value></cim:StringMeasurementValue>')
assert repr(d["a"].value) == "7.0" and repr(d["b"].value) == "7" and repr(d["c"].value) == "'7'", [x.value for x in d.values()]
''', needs='two classes in one document whose attributes of the same name have different types and the same text', breaks='the later one gets the value of the earlier one'),
dict(id='s13', property='R03', edits=[(RD, '                                                     uuid2[1:])\n                                        continue', '                                                     uuid2[1:])\n                                        break')],
 demo=DOC + '''
d = read('<cim:ConnectivityNode rdf:ID="n"/><cim:Terminal rdf:ID="t"><cim:Terminal.ConductingEquipment rdf:resource="#gone"/>'
         '<cim:Terminal.ConnectivityNode rdf:resource="#n"/></cim:Terminal>')
assert d["t"].ConnectivityNode is d["n"] and d["n"].Terminals == [d["t"]]
''', needs='a reference to a missing object followed by another reference of the same object', breaks='the references after a dangling one are lost'),
dict(id='s14', property='R03', edits=[(RD, 'val = d[uuid2[1:]] # remove', 'val = d[uuid2[1:].split(":")[-1]] # remove')],
 demo=DOC + '''
d = read('<cim:ConnectivityNode rdf:ID="x:n"/><cim:Terminal rdf:ID="x:t">'
         '<cim:Terminal.ConnectivityNode rdf:resource="#x:n"/></cim:Terminal>')
assert d["x:t"].ConnectivityNode is d["x:n"]
''', needs='identifiers with a colon', breaks='references to such identifiers are lost'),
dict(id='s15', property='R04', edits=[(RD, 'val = uuid2.rsplit(".", 1)[1]', 'val = uuid2.split("#", 1)[-1].split(".")[1]')],
 demo=DOC + '''
d = read('<cim:Terminal rdf:ID="t"><cim:Terminal.phases rdf:resource="http://iec.ch/TC57/PhaseCode.AB"/></cim:Terminal>')
assert d["t"].phases == "AB", d["t"].phases
''', needs='an enumeration resource whose namespace has dots and no "#"', breaks='the attribute is set to a piece of the namespace'),
dict(id='s16', property='R05', edits=[(RD, '                                #              obj.__class__.__name__, attr)\n                                continue', '                                #              obj.__class__.__name__, attr)\n                                break')],
 demo=DOC + '''
d = read('<cim:Substation rdf:ID="a"><cim:Substation.unheardOf>1</cim:Substation.unheardOf><cim:IdentifiedObject.name>n</cim:IdentifiedObject.name></cim:Substation>')
assert d["a"].name == "n"
''', needs='an unknown attribute before a known one', breaks='the attributes after an unknown one are lost'),
dict(id='s17', property='R06', edits=[(RD, '    return nsuri, cim.packageMap', '    return cim.nsURI, cim.packageMap')],
 demo=DOC + '''
d = read('<cim:Substation rdf:ID="a"/>', ns="http://iec.ch/TC57/2013/CIM-schema-cim16#")
assert list(d) == ["a"] and type(d["a"]).__module__.startswith("CIM15.")
''', needs='a document of a CIM version other than 14 and 15', breaks='its elements are not found'),
dict(id='s18', property='R07', edits=[(RD, "def xmlns(source):", "_known = {}\n\ndef xmlns(source):"), (RD, "    namespaces = {}\n    events", "    if source in _known:\n        return _known[source]\n    namespaces = _known[source] = {}\n    events")],
 demo=DOC + '''
T = '<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:cim="http://iec.ch/TC57/%s#"><cim:Substation rdf:ID="a"/></rdf:RDF>'
n = tempfile.mktemp()
try:
    for v, m in (("2010/CIM-schema-cim15", "CIM15"), ("2009/CIM-schema-cim14", "CIM14")):
        f = open(n, "w"); f.write(T % v); f.close()
        d = cimread(n)
        assert list(d) == ["a"] and type(d["a"]).__module__.startswith(m), (v, d)
finally:
    os.remove(n)
''', needs='two reads of the same path, with documents of different CIM versions', breaks='the namespaces of the first document are used for the second'),
dict(id='s19', property='W01', edits=[(SX, '''    s = s.replace("&", "&amp;")
    s = s.replace("'", "&apos;")
    s = s.replace("\\"", "&quot;")
    s = s.replace("<", "&lt;")''', '''    s = s.replace("'", "&apos;")
    s = s.replace("\\"", "&quot;")
    s = s.replace("<", "&lt;")
    s = re.sub("&(?!#?[a-z0-9]+;)", "&amp;", s)''')],
 demo=RT + '''
from CIM15.IEC61970.Core.Substation import Substation
for u in ("a&b", "a<b", "&lt;", 'q"', "a&amp;b"):
    d = back({u: Substation(UUID=u)})
    assert list(d) == [u] and d[u].UUID == u, (u, list(d))
''', needs='an identifier that contains the text of an entity reference', breaks='it is read back as the character the entity stands for'),
dict(id='s20', property='W02', edits=[(WR, """                if val != klass._defaults[attr]:
""", """                default = klass._defaults[attr]
                if type(val) is float and abs(val - default) < 1e-9:
                    continue # at its default
                if val != default:
""")],
 demo=RT + '''
from CIM15.IEC61970.Wires.ACLineSegment import ACLineSegment
for v in (1e-6, 1e-10, -3e-12):
    assert back({"u": ACLineSegment(UUID="u", bch=v)})["u"].bch == v
''', needs='a real value very close to, but not at the default', breaks='the value is not written'),
dict(id='s21', property='W03', edits=[(WR, '                if val is not None:\n                    w.element', '                if val is not None and val.UUID in d:\n                    w.element')],
 demo=RT + '''
from CIM15.IEC61970.Core.Terminal import Terminal
from CIM15.IEC61970.Core.ConnectivityNode import ConnectivityNode
n = ConnectivityNode(UUID="n"); t = Terminal(UUID="t", ConnectivityNode=n)
assert 'Terminal.ConnectivityNode' in write({"t": t})
assert 'Terminal.ConnectivityNode' in write({"x": t, "y": n})
''', needs='a reference to an object that is not written along, or a dictionary with keys other than the UUIDs', breaks='the link is not stated'),
dict(id='s22', property='W04', edits=[(SX, '            combined_attrib = attrib.copy()\n', '            combined_attrib = attrib\n')],
 demo='''
from PyCIM.SimpleXMLWriter import XMLWriter
f = io.StringIO()
w = XMLWriter(f)
r = w.start("r")
w.element("a", "x", b="1")
w.element("c", "y")
w.close(r)
assert f.getvalue() == '<r><a b="1">x</a><c>y</c></r>', f.getvalue()
''', needs='keyword attributes on one element and another element without a dictionary', breaks='attributes leak into later elements'),
dict(id='s23', property='W05', edits=[(WR, '    # Iterate over all UUID, CIM object pairs in the given dictionary.\n    for uuid, obj in d.items():\n', '    # Iterate over all UUID, CIM object pairs in the given dictionary.\n    for uuid, obj in sorted(d.items()):\n        # Objects that were made without an identifier go by their key.\n        if obj.UUID != uuid:\n            obj.UUID = uuid\n'),
  ],
 demo=RT + '''
from CIM15.IEC61970.Core.Substation import Substation
s = Substation(UUID="s")
write({"k": s})
assert s.UUID == "s"
''', needs='a dictionary with keys other than the UUIDs', breaks='writing renames the objects'),
dict(id='s24', property='T01', edits=[(WR, '                              str(val))', '                              "%.12g" % val if type(val) is float else str(val))')],
 demo=RT + '''
from CIM15.IEC61970.Wires.ACLineSegment import ACLineSegment
for v in (0.1 + 0.2, 1e300, 123456789.12345678):
    assert back({"u": ACLineSegment(UUID="u", r=v)})["u"].r == v
''', needs='a real value with more than twelve significant digits', breaks='the value changes by writing and reading'),
dict(id='s25', property='P01', edits=[(PP, '        if not elem.text or not elem.text.strip():\n            elem.text = i + "  "', '        elem.text = i + "  "')],
 demo='''
from PyCIM.PrettyPrintXML import xmlpp
out = xmlpp(io.BytesIO(b"<a>text<b/></a>"))
assert b"text" in out, out
''', needs='an element with text and children', breaks='its text is lost'),
dict(id='s26', property='W02', edits=[(SX, '        if text:\n            self.data(text)', '        if text and not text.isspace():\n            self.data(text)')],
 demo=RT + '''
from CIM15.IEC61970.Core.Substation import Substation
d = back({"s": Substation(UUID="s", name="  ")})
assert d["s"].name == "  "
''', needs='a string attribute that consists of white space', breaks='it is written as an empty element'),
dict(id='s27', property='R05', edits=[(RD, '                if uuid is not None:\n                    uuid = uuid[1:]\n            if uuid is not None:\n                # Locate', '                if uuid is not None:\n                    uuid = uuid[1:]\n            if uuid is not None:\n                # Locate')] ,
 demo='', needs='', breaks='') if 0 else
dict(id='s27', property='R05', edits=[(RD, '                    logger.error("Missing \'%s\' object with uuid: %s",\n                                 elem.tag[m:], uuid)\n                    root.clear()\n                    continue', '                    logger.error("Missing \'%s\' object with uuid: %s",\n                                 elem.tag[m:], uuid)\n                    break')],
 demo=DOC + '''
d = read('<cim:UnheardOf rdf:ID="x"/><cim:Substation rdf:ID="a"><cim:IdentifiedObject.name>n</cim:IdentifiedObject.name></cim:Substation>')
assert d["a"].name == "n"
''', needs='an unknown class before a known one', breaks='nothing after the unknown object is read'),
dict(id='s28', property='C02', edits=[('CIM15/IEC61970/Core/Equipment.py', 'filtered = [x for x in self.EquipmentContainer.Equipments if x != self]', 'filtered = [x for x in self.EquipmentContainer.Equipments if x.name != self.name]')],
 demo='''
from CIM15.IEC61970.Core.Equipment import Equipment
from CIM15.IEC61970.Core.EquipmentContainer import EquipmentContainer
c = EquipmentContainer(); a, b = Equipment(name="x"), Equipment(name="x")
c.Equipments = [a, b]
a.EquipmentContainer = None
assert c.Equipments == [b] and b.EquipmentContainer is c
''', needs='two pieces of equipment with the same name', breaks='moving one of them out of a container drops the other from its list'),

dict(id='s29', property='R08', edits=[(RD, '    d = start_dict if start_dict is not None else {}', '    d = start_dict or {}')],
 demo=DOC + """
mine = {}
read('<cim:Substation rdf:ID="a"/>', start_dict=mine)
assert list(mine) == ["a"], mine
""", needs='an empty dictionary given as start_dict', breaks='the given dictionary is not filled'),
dict(id='s30', property='R06', edits=[(RD, '                # Import the module for the CIM object.\n                module = __import__(mname, globals(), locals(), [tag], 0)\n                # Get the CIM class from the module.\n                klass = getattr(module, tag)\n',
  '                try:\n                    klass = _classes[base + tag]\n                except KeyError:\n                    # Import the module for the CIM object.\n                    module = __import__(mname, globals(), locals(), [tag], 0)\n                    # Get the CIM class from the module.\n                    klass = _classes[base + tag] = getattr(module, tag)\n'),
  (RD, 'logger = logging.getLogger(__name__)\n', 'logger = logging.getLogger(__name__)\n\n_classes = {} # classes by element tag\n')],
 demo=DOC + """
import CIM14.CPSM.Equipment as E
ns = "http://iec.ch/TC57/2009/CIM-schema-cim14#"
a = read('<cim:Substation rdf:ID="a"/>', ns)
b = read('<cim:Substation rdf:ID="a"/>', ns, packageMap=E.packageMap, nsURI=ns[:-1])
assert type(a["a"]).__module__ == "CIM14.IEC61970.Core.Substation", type(a["a"])
assert type(b["a"]).__module__ == "CIM14.CPSM.Equipment.Core.Substation", type(b["a"])
""", needs='two reads of documents in one namespace with the classes of the version and of a profile', breaks='the second one yields classes of the first'),
dict(id='s31', property='R09', edits=[(RD, 'setattr(obj, attr, typ(elem.text))', 'setattr(obj, attr, typ(elem.text.replace(",", ".")) if elem.text else typ(elem.text))')],
 demo=DOC + """
try:
    d = read('<cim:ACLineSegment rdf:ID="a"><cim:ACLineSegment.r>1,5</cim:ACLineSegment.r></cim:ACLineSegment>')
except ValueError:
    pass
else:
    assert d["a"].r == 0.0, d["a"].r
d = read('<cim:Substation rdf:ID="a"><cim:IdentifiedObject.name>a b</cim:IdentifiedObject.name></cim:Substation>')
assert d["a"].name == "a b"
""", needs='a number text with a comma', breaks='a text that is no number becomes the value of a number attribute (and commas in names become dots)'),
dict(id='s32', property='R03', edits=[(RD, '                                        val = d[uuid2[1:]] # remove \'#\' prefix', '                                        val = d.get(uuid2[1:]) or d["_" + uuid2[1:]] # remove \'#\' prefix')],
 demo=DOC + """
d = read('<cim:Terminal rdf:ID="t"><cim:Terminal.ConnectivityNode rdf:resource="#n"/></cim:Terminal><cim:ConnectivityNode rdf:ID="_n"/>')
assert d["t"].ConnectivityNode is None and d["_n"].Terminals == []
""", needs='a reference to an identifier that is not there while the same with an underscore before it is', breaks='a link to another object is made'),
dict(id='s33', property='R02', edits=[(RD, 'setattr(obj, attr, typ(elem.text))', 'setattr(obj, attr, typ(elem.text) if typ is not int else int(float(elem.text)))')],
 demo=DOC + """
d = read('<cim:Analog rdf:ID="a"/><cim:SvShuntCompensatorSections rdf:ID="s"/><cim:TapChanger rdf:ID="t"><cim:TapChanger.highStep>9007199254740993</cim:TapChanger.highStep></cim:TapChanger>')
assert d["t"].highStep == 9007199254740993, d["t"].highStep
""", needs='an integer with more digits than a real number has', breaks='its last digits change'),
dict(id='s34', property='R06', edits=[(RD, "        if ns.endswith('#'):\n            ns = ns[:-1]", "        ns = ns.split('#')[0]")],
 demo=DOC + """
d = read('<cim:Substation rdf:ID="a"/>', "http://example.com/cim#profile#")
assert list(d) == ["a"], d
""", needs='a CIM namespace with a "#" within', breaks='nothing of the document is read'),
dict(id='s36', property='W03', edits=[(WR, '                val = getattr(obj, ref)\n                if val is not None:\n', '                val = getattr(obj, ref)\n                if val is not None and val is not obj:\n'),
 (WR, '                for val in getattr(obj, ref):\n                    w.element(', '                for val in getattr(obj, ref):\n                    if val is obj:\n                        continue\n                    w.element(')],
 demo=RT + """
from CIM15.IEC61970.Generation.Production.Reservoir import Reservoir
r = Reservoir(UUID="r")
r.SpillsFromReservoir = r
assert back({"r": r})["r"].SpillsFromReservoir is not None
""", needs='an object that refers to itself', breaks='the link is not stated'),
dict(id='s35', property='T02', edits=[(WR, '                for val in getattr(obj, ref):\n', '                for val in sorted(getattr(obj, ref), key=id)[:1000]:\n')] if 0 else
 [(WR, '        mro = obj.__class__.mro()\n        mro.reverse()\n', '        mro = _lineage.get(obj.__class__.__name__)\n        if mro is None:\n            mro = obj.__class__.mro()\n            mro.reverse()\n            _lineage[obj.__class__.__name__] = mro\n'),
  (WR, 'logger = logging.getLogger(__name__)\n', 'logger = logging.getLogger(__name__)\n\n_lineage = {} # base classes by class name\n')],
 demo=RT + """
from CIM15.IEC61970.Core.Substation import Substation as S15
from CIM14.IEC61970.Core.Substation import Substation as S14
from CIM14.IEC61970.Core.SubGeographicalRegion import SubGeographicalRegion as R14
from CIM15.IEC61970.Core.SubGeographicalRegion import SubGeographicalRegion as R15
from CIM14.IEC61970.Core.Bay import Bay as B14
from CIM15.IEC61970.Core.Bay import Bay as B15
from CIM15.IEC61970.Wires.PowerTransformer import PowerTransformer as T15
from CIM14.IEC61970.Wires.PowerTransformer import PowerTransformer as T14
from CIM14.IEC61970.Wires.TransformerWinding import TransformerWinding as W14
write({"t": T14(UUID="t")})
assert 'PowerTransformer.vectorGroup' in write({"t": T15(UUID="t", vectorGroup="Yy0")})
""", needs='documents of two CIM versions written by one process, with a class that differs between them', breaks='attributes and references that the first version does not have are lost'),
dict(id='s37', property='W05', edits=[(WR, '    # Flush the output stream.\n    w.flush()\n', '    # Flush the output stream.\n    try:\n        w.flush()\n    except (IOError, OSError):\n        logger.error("Could not flush the output stream.")\n')],
 demo=RT + """
from CIM15.IEC61970.Core.Substation import Substation
class Full(object):
    def write(self, s): pass
    def flush(self): raise IOError("disk full")
try:
    cimwrite({"s": Substation(UUID="s")}, Full())
except IOError:
    pass
else:
    raise AssertionError("the caller does not learn that the document is not complete")
""", needs='a stream that cannot be flushed', breaks='an incomplete document passes for a complete one'),
dict(id='s38', property='R08', edits=[(RD, '                # Instantiate the class and map it to the uuid.\n                d[uuid] = klass(UUID=uuid)\n', '                # Instantiate the class and map it to the uuid.\n                d[uuid] = klass(UUID=uuid)\n                found = True\n'),
   (RD, '    ## Second pass sets attributes and references.\n', '    if not found: # no objects\n        return d\n\n    ## Second pass sets attributes and references of the objects.\n'),
   (RD, '    # First pass instantiates the classes.\n', '    # First pass instantiates the classes.\n    found = False\n')],
 demo=DOC + """
d = read('<cim:Substation rdf:ID="a"/>')
read('<cim:Substation rdf:about="#a"><cim:IdentifiedObject.name>n</cim:IdentifiedObject.name></cim:Substation>', start_dict=d)
assert d["a"].name == "n"
""", needs='a document that only describes objects of the given dictionary further', breaks='it is not read'),

dict(id='s39', property='R10', edits=[(RD, '    namespaces = {}\n    events=("end", "start-ns", "end-ns")\n', '    namespaces = _namespaces\n    namespaces.clear()\n    events=("end", "start-ns", "end-ns")\n'),
  (RD, 'logger = logging.getLogger(__name__)\n', 'logger = logging.getLogger(__name__)\n\n_namespaces = {} # of the document\n')],
 demo=DOC + """
class Source(io.RawIOBase):
    def __init__(self, data, at=None):
        self.b, self.at = io.BytesIO(data), at
    def readable(self): return True
    def seek(self, *a): return self.b.seek(*a)
    def read(self, n=-1):
        if self.at and self.b.tell() > 200:
            self.at, at = None, self.at
            at()
        return self.b.read(1)
def doc(ns):
    return ('<?xml version="1.0"?>\\n<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:cim="%s"><cim:Substation rdf:ID="a"><cim:IdentifiedObject.name>n</cim:IdentifiedObject.name></cim:Substation></rdf:RDF>' % ns).encode()
other = []
d = cimread(Source(doc("http://iec.ch/TC57/2010/CIM-schema-cim15#"), lambda: other.append(cimread(Source(doc("http://iec.ch/TC57/2009/CIM-schema-cim14#"))))))
assert type(d["a"]).__module__ == "CIM15.IEC61970.Core.Substation", d
assert type(other[0]["a"]).__module__ == "CIM14.IEC61970.Core.Substation", other
""", needs='a read that starts while another one is at the start of its document', breaks='the other one uses the namespaces of this document'),
dict(id='s40', property='W06', edits=[(SX, '        self.__tags = []\n', '        del self.__tags[:]\n'), (SX, 'class XMLWriter:\n', 'class XMLWriter:\n\n    __tags = [] # open elements\n')],
 demo=RT + """
from CIM15.IEC61970.Core.Substation import Substation
class Sink(object):
    def __init__(self, at=None):
        self.s, self.at = [], at
    def write(self, s):
        if self.at and len(self.s) == 8:
            self.at, at = None, self.at
            at()
        self.s.append(s)
    def flush(self): pass
d = {"s": Substation(UUID="s", name="n")}
alone, one, two = Sink(), Sink(), Sink()
cimwrite(d, alone)
one.at = lambda: cimwrite(d, two)
cimwrite(d, one)
assert "".join(one.s) == "".join(two.s) == "".join(alone.s), "".join(one.s)
""", needs='a write that starts while another one is under way', breaks='the other document is not closed properly'),
dict(id='s41', property='R07', edits=[(RD, '    # Obtain the namespaces from the input file\n', '    # Read files by their path, which is faster.\n    source = getattr(source, "name", source)\n\n    # Obtain the namespaces from the file\n')],
 demo=DOC + """
import gzip
data = b'<?xml version="1.0"?>\\n<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:cim="http://iec.ch/TC57/2010/CIM-schema-cim15#"><cim:Substation rdf:ID="a"/></rdf:RDF>'
f = tempfile.NamedTemporaryFile(suffix=".gz")
with gzip.open(f.name, "wb") as z: z.write(data)
with gzip.open(f.name) as z:
    assert list(cimread(z)) == ["a"]
""", needs='a stream whose name is that of a file with other content, as of a compressed one', breaks='the other content is read'),
dict(id='s42', property='P01', edits=[(PP, '            indent(elem, level+1)\n        if not elem.tail or not elem.tail.strip():\n            elem.tail = i\n', '            indent(elem, level+1)\n        elem.tail = i # in line with the end tag\n')],
 demo="""
from PyCIM.PrettyPrintXML import xmlpp
assert b"rest" in xmlpp(io.BytesIO(b"<a><b/>rest</a>"))
""", needs='text after the last child of an element', breaks='the text is lost'),
dict(id='s43', property='C03', edits=[('CIM15/IEC61970/Informative/InfWork/Assignment.py', '    def setCrews(self, value):\n', '    def setCrews(self, value):\n        if len(value) == len(self._Crews) and value[-1:] == self._Crews[-1:]: # the same\n            return\n'), ('CIM15/IEC61970/Informative/InfWork/Assignment.py', '        for p in self._Crews:\n            filtered', '        for p in list(self._Crews):\n            filtered')],
 demo="""
from CIM15.IEC61970.Informative.InfWork.Assignment import Assignment
from CIM15.IEC61970.Informative.InfWork.Crew import Crew
a, b, c = Crew(), Crew(), Crew()
x = Assignment(Crews=[a, c])
x.Crews = [b, c]
assert x.Crews == [b, c] and b.Assignments == [x] and a.Assignments == []
""", needs='a list replaced by another one of the same length with the same last member', breaks='the assignment is ignored'),
dict(id='s44', property='C01', edits=[('CIM15/IEC61968/PaymentMetering/Card.py', '    def setTender(self, value):\n        if self._Tender is not None:\n', '    def setTender(self, value):\n        if self._Tender:\n            if value is not None and value.UUID == self._Tender.UUID:\n                return # the same\n')],
 demo="""
from CIM15.IEC61968.PaymentMetering.Card import Card
from CIM15.IEC61968.PaymentMetering.Tender import Tender
c, t, u = Card(), Tender(), Tender()
c.Tender = t
c.Tender = u
assert c.Tender is u and u.Card is c and t.Card is None
""", needs='a partner replaced by another one with the same UUID, or without one', breaks='the assignment is ignored'),
dict(id='s45', property='C02', edits=[('CIM15/IEC61970/Core/ConnectivityNode.py', '        for obj in Terminals:\n            obj.ConnectivityNode = None\n', '        for obj in Terminals:\n            obj._ConnectivityNode = None\n            self._Terminals = [x for x in self._Terminals if x is not obj]\n')],
 demo="""
from CIM15.IEC61970.Core.Terminal import Terminal
from CIM15.IEC61970.Core.ConnectivityNode import ConnectivityNode
a, b = ConnectivityNode(), ConnectivityNode()
t = Terminal(ConnectivityNode=b)
try:
    a.removeTerminals(t)
except ValueError:
    pass
assert (t.ConnectivityNode is b) == (t in b.Terminals)
""", needs='the removal of a terminal that belongs to another node', breaks='the other node still lists it'),
dict(id='s46', property='R09', edits=[(RD, '                                        setattr(obj, attr, typ(elem.text))\n', '                                        try:\n                                            val = typ(elem.text)\n                                        except ValueError:\n                                            val = typ(float(elem.text)) # e.g. "5.0"\n                                        setattr(obj, attr, val)\n')],
 demo=DOC + """
try:
    d = read('<cim:Terminal rdf:ID="a"><cim:Terminal.sequenceNumber>1.7</cim:Terminal.sequenceNumber></cim:Terminal>')
except ValueError:
    pass
else:
    assert d["a"].sequenceNumber == 0
""", needs='a real number as the text of an integer attribute', breaks='another number is read'),

dict(id='s47', property='R11', edits=[(RD, """                                        logger.error("Referenced '%s' [%s] "
                                                     "object missing.",
                                                     obj.__class__.__name__,
                                                     uuid2[1:])
""", """                                        if tag_missing not in logger_errors_grouped:
                                            logger_errors_grouped[tag_missing] = 0
                                            logger.error("Referenced '%s' [%s] object missing.",
                                                         obj.__class__.__name__, uuid2[1:])
                                        logger_errors_grouped[tag_missing] += 1
"""), (RD, "            uuid = elem.get(\"{%s}ID\" % ns_rdf)\n            if uuid is None:\n                uuid = elem.get(\"{%s}about\" % ns_rdf)\n                if uuid is not None:\n                    uuid = uuid[1:]\n            if uuid is not None:\n", "            uuid = elem.get(\"{%s}ID\" % ns_rdf)\n            tag_missing = \"'%s' with missing references\" % elem.tag[m:]\n            if uuid is None:\n                uuid = elem.get(\"{%s}about\" % ns_rdf)\n                if uuid is not None:\n                    uuid = uuid[1:]\n            if uuid is not None:\n")],
 demo=DOC + """
logging.disable(logging.NOTSET)
said = []
class H(logging.Handler):
    def handle(self, r): said.append(r.getMessage())
logging.getLogger().addHandler(H())
read('<cim:Terminal rdf:ID="a"><cim:Terminal.ConnectivityNode rdf:resource="#n1"/></cim:Terminal><cim:Terminal rdf:ID="b"><cim:Terminal.ConnectivityNode rdf:resource="#n2"/></cim:Terminal>')
assert any("n1" in x for x in said) and any("n2" in x for x in said), said
""", needs='two references to missing objects from objects of one class', breaks='the second one is not reported'),
dict(id='s48', property='R11', edits=[(RD, """                                error_msg = "'%s' has not attribute '%s'" %(obj.__class__.__name__, attr)
""", """                                error_msg = attr
"""), (RD, """            logging_message = '%s : %d times' %(error, count)
""", """            logging_message = "'%s' has not attribute '%s' : %d times" % (obj.__class__.__name__, error, count)
""")],
 demo=DOC + """
logging.disable(logging.NOTSET)
said = []
class H(logging.Handler):
    def handle(self, r): said.append(r.getMessage())
logging.getLogger().addHandler(H())
read('<cim:Terminal rdf:ID="a"><cim:Terminal.x>1</cim:Terminal.x></cim:Terminal><cim:Substation rdf:ID="b"/>')
assert any("Terminal" in x and "'x'" in x for x in said), said
""", needs='an object of another class after the one with the unknown name', breaks='the message names the class of the last object'),
dict(id='s49', property='C06', edits=[('CIM15/IEC61970/Core/ConnectivityNode.py', """        self._Terminals = []
        self.Terminals = [] if Terminals is None else Terminals
""", """        self._Terminals = []
        if Terminals is not None:
            for obj in Terminals:
                obj.ConnectivityNode = self
            self._Terminals = Terminals
""")],
 demo="""
from CIM15.IEC61970.Core.Terminal import Terminal
from CIM15.IEC61970.Core.ConnectivityNode import ConnectivityNode
a, b = Terminal(), Terminal()
ts = [a]
n = ConnectivityNode(Terminals=ts)
ts.append(b)
assert n.Terminals == [a]
""", needs='a list given at construction that the caller changes afterwards', breaks='the node lists a terminal that does not refer to it'),
dict(id='s50', property='W05', edits=[('PyCIM/SimpleXMLWriter.py', """            file = open_file(file, encoding)
""", """            exists = os.path.exists(file)
            file = open_file(file, encoding, "r+" if exists else "w")
"""), ('PyCIM/SimpleXMLWriter.py', 'import re, sys, string\n', 'import os, re, sys, string\n'), ('PyCIM/SimpleXMLWriter.py', '    def open_file(file, encoding):\n        # the file encodes what is written to it\n        return open(file, "w", ', '    def open_file(file, encoding, mode):\n        # the file encodes what is written to it\n        return open(file, mode, '), ('PyCIM/SimpleXMLWriter.py', '    def open_file(file, encoding):\n        return open(file, "w")', '    def open_file(file, encoding, mode):\n        return open(file, mode)')],
 demo="""
from PyCIM import cimwrite
from CIM15.IEC61970.Core.Substation import Substation
d = tempfile.mkdtemp()
import shutil
try:
    p = d + "/x.xml"
    cimwrite({"a": Substation(UUID="a", name="long " * 20)}, p)
    cimwrite({"a": Substation(UUID="a")}, p)
    t = open(p).read()
    assert t.count("</rdf:RDF>") == 1, t
finally:
    shutil.rmtree(d)
""", needs='a path where a longer file is', breaks='the rest of it stays behind the document'),
dict(id='s51', property='R08', edits=[(RD, "                                    elif isinstance(default, list): # many\n", "                                    elif isinstance(default, list) and \\\n                                            val.UUID not in [x.UUID for x in default]: # many\n")],
 demo=DOC + """
from CIM15.IEC61970.Core.VoltageLevel import VoltageLevel
s = {"u": VoltageLevel(), "v": VoltageLevel()}
d = read('<cim:Substation rdf:ID="a"><cim:Substation.VoltageLevels rdf:resource="#u"/><cim:Substation.VoltageLevels rdf:resource="#v"/></cim:Substation>', start_dict=s)
assert d["a"].VoltageLevels == [s["u"], s["v"]]
""", needs='objects in the given dictionary that have the same UUID, or none, under different keys', breaks='only the first of them is linked'),
]
