"""What each check decides: evidence texts, bounds and assumptions (MANIFEST.json and properties.jsonl
are generated from here by tools/gen.py)."""

ENGINE = ('The current source of every module of /repo that the property involves is instrumented (AST) and executed '
          'symbolically, path by path, from a harness whose inputs are solver variables; z3 decides every branch and every '
          'assertion for all values within the bounds; a model that refutes an assertion is replayed on the uninstrumented code '
          'by another interpreter before it is reported. ')

TRUST = ['the symbolic executor in symx/ (instrumentation, models of str/list/dict/float operations) and z3',
         'spec/cim.json states the class model (classes, bases, attributes with type and default, enumerations, association ends)']
XMLIN = ['the XML parser (xml.etree) is a stub that delivers the events a document tree implies; counterexamples are replayed with the real parser']
XMLOUT = ['written text is parsed by a reference tokenizer (symx/xmltok.py) instead of expat; counterexamples are replayed with the real parser']

P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, bounds, how, note, assume=(), functions=None,
         state=None, observe=None, level='model_checking'):
    P[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, bounds=bounds,
                  how=how, note=note, assume=list(assume), functions=functions, state=state, observe=observe, level=level)


GEN = ['CIM14', 'CIM15']
ACC = [dict(name='generated accessors (get/set/add/remove/property)', where='CIM14/**, CIM15/**: every class module')]
PUB = ['attributes and accessor methods of the objects']

prop('C01', 'One-to-one references agree on both sides',
     'When either end of a one-to-one reference is assigned an object or nothing, reading either end afterwards gives the same pairing. '
     'No object ever has two partners, and partners that were displaced refer to nothing. This holds for every one-to-one reference of every class and after every sequence of assignments.',
     ['histories', 'inputs'], 'Every one-to-one reference of every class; every pre-state of two (or three) objects a side; every next one or two assignments from either side.',
     'The tests build one small network and never reassign a reference; there are over a hundred association ends with their own hand-expanded accessors.',
     GEN, ACC, 'All 1-1 association ends and their overriding subclasses. 2x2 objects, symbolic pre-state (one assignment each) plus one symbolic assignment from either side; for one representative of every textually distinct implementation also 3x3 objects and all sequences of two assignments (thorough: three, for every association).',
     'A reference relation kept in selectors is compared with what both sides read.',
     'Bounded: 2-3 objects a side, histories of up to 4-5 assignments. Exhaustive over values within that bound.', functions=['every one-to-one accessor of CIM14 and CIM15'])

prop('C02', 'One-to-many references agree on both sides',
     'Whatever sequence of assignments to the single end, additions to, removals from and list assignments to the many end is made, an object is listed by exactly the owner it refers to, once, and by no other one. '
     'A list (without repetitions) that is assigned is read back in its order, replaces the previous members (which then refer to nothing), takes members from their previous owners, and stays independent of the list object the caller passed.',
     ['histories', 'inputs'], 'Every one-to-many association; every distribution of members over two owners (with many bystanders too); every next operation or two.',
     'The tests check two or three associations after construction only; moving members between owners is never exercised, and each of about a thousand associations has its own copy of the accessors.',
     GEN, ACC, 'All 1-N associations and overriding subclasses: 2 members (3 or a common pool for reflexive ones), 2 owners, arbitrary pre-state, one operation of {assign, add 0-2, remove 1-2, assign a list of 0-3, assign an owner\'s own or another owner\'s list}. For one representative of every distinct implementation: 3 members, 12 and 40 bystanders, all sequences of two operations (thorough: 3 members for all, sequences of three).',
     'A reference relation kept in selectors is compared with what both sides read.',
     'Bounded: up to 3 members plus 40 bystanders, histories of up to 6 operations. Known finding: four classes inherit another reference of the same name.', functions=['every one-to-many accessor of CIM14 and CIM15'])

prop('C03', 'Many-to-many references agree on both sides',
     'After any sequence of additions, removals and list assignments at either end of a many-to-many reference, an object lists another one exactly when the other lists it, and lists it once. '
     'A list (without repetitions) that is assigned is read back in its order and stays independent of the list object the caller passed.',
     ['histories', 'inputs'], 'Every many-to-many association end; every link relation between two and two or three objects (with many bystanders too); every next operation or two.',
     'No test touches a many-to-many reference after construction; the accessors are expanded by hand for every association.',
     GEN, ACC, 'All N-N association ends and overriding subclasses: 2x2 objects, arbitrary link relation, one operation of {add 0-2 (also twice the same), remove 1-2, assign a list, assign an own or foreign list}; for one representative of every distinct implementation 2x3 objects, 12 and 40 bystanders and all sequences of two operations (thorough: sequences of two for all, 2x3 objects with two operations).',
     'A reference relation is compared with what both sides list.',
     'Bounded: up to 3 objects a side plus 40 bystanders. Known finding: ProtectedSwitch and its subclasses inherit another reference of the same name.', functions=['every many-to-many accessor of CIM14 and CIM15'])

prop('C04', 'Changing one feature leaves every other one alone',
     'Assigning an attribute or reference of an object, adding to or removing from its lists, or reading it, changes that feature and the opposite ends of the links involved, and nothing else: every other attribute and reference of this and every other object keeps its value. '
     'Objects created later start with the same defaults and empty references as before.',
     ['inputs', 'histories'], 'Every feature of every class, every operation on it, all attribute values, in objects whose other references are all occupied.',
     'Tests read back what they wrote, never what they did not write; there are about ten thousand features.',
     GEN, [dict(name='instance state behind properties', where='CIM14/**, CIM15/**: __init__ and accessors')],
     'Two objects of the class with every reference occupied by one object of its own and every attribute symbolic (strings of one character); one operation on one feature (assign None/new/another\'s target, add, remove, assign list of 0-2, read). Quick: features declared by the class itself; thorough: inherited ones too.',
     'A snapshot of every feature of every object before and after is compared.',
     'Bounded: one operation, one target per reference.', functions=['every accessor of CIM14 and CIM15'])

prop('C05', 'New objects hold the defaults of the model and the values given',
     'A new object of any class has the default value of the class model in every attribute, no object in any single reference and an empty list of its own in any list reference. '
     'An attribute value given by keyword is the value of exactly that attribute, also for inherited attributes, and leaves the others at their defaults.',
     ['inputs', 'programs'], 'Every class, every attribute, every value of the attribute\'s type.',
     'Tests construct a handful of the 1,676 classes, with few keywords.',
     GEN, [dict(name='constructors', where='CIM14/**, CIM15/**: __init__')],
     'All classes and attributes, own and inherited; all keywords at once and each alone; unbounded integers, all IEEE doubles, strings of three arbitrary characters.',
     'Attribute values are symbolic; the constructor chain is executed and each attribute is compared.',
     'Strings have three symbolic characters; numbers and truth values are unrestricted.', functions=['every __init__ of CIM14 and CIM15'])

prop('C06', 'References given at construction are links like any other',
     'An object constructed with references is linked on both sides of each of them exactly as if they had been assigned afterwards: targets see the new object, previous owners or partners have let go of them, and no reference disturbs another one or an attribute. '
     'Alternative impedance models of a line segment given together are refused.',
     ['inputs', 'programs'], 'Every reference of every class alone, and all references and attributes of every class together, with targets that are free or already linked.',
     'Tests construct a few objects with one or two references.',
     GEN, [dict(name='constructors', where='CIM14/**, CIM15/**: __init__'), dict(name='impedance alias', where='CIM15/IEC61970/Wires/ACLineSegment.py')],
     'All classes; one or two targets a reference, free or linked to another object before (symbolic); attributes symbolic (one character).',
     'Both sides of every link and all attributes are compared after construction.',
     'Bounded: one target per single reference, two per list.', functions=['every __init__ of CIM14 and CIM15'])

prop('C07', 'References without an opposite end hold what was put into them',
     'A single reference without an opposite end reads back what was assigned last, whatever else refers to the same target. '
     'A list without an opposite end contains what was added or assigned and not removed since, in that order, and belongs to its object alone, whatever becomes of the list object it was assigned from.',
     ['histories', 'inputs'], 'Every unidirectional reference of every class; histories of up to three operations.',
     'No test uses a unidirectional reference.',
     GEN, ACC, 'All unidirectional references; two objects and two targets (20 bystanders), pre-state and one or two operations of {add one, add two, remove, assign list}; single references: two assignments (thorough: three objects, three assignments).',
     'The contents are compared with a reference list.',
     'Bounded: two targets (plus 20), up to four operations.', functions=['every unidirectional accessor of CIM14 and CIM15'])

RD = ['PyCIM/RDFXMLReader.py']
RM = [dict(name='first pass creates objects, second pass sets values and references', where='PyCIM/RDFXMLReader.py: cimread')]

prop('R01', 'Reading yields one object per identifier, of its class',
     'Reading a document yields a dictionary with exactly one object for every resource of a known class, under its identifier, of the class the element names, and carrying that identifier. '
     'A further description of a resource (rdf:about) adds to the object of that identifier wherever it stands, and objects already in a given dictionary are kept, can be described further and referred to.',
     ['inputs'], 'Every class of every class table; all identifiers within the bounds, also ones that differ in one place of a long text; every order of elements.',
     'Tests read two fixed files with fixed identifiers.',
     RD, RM, 'Documents of 1-3 objects (thorough 4) with symbolic identifiers: 1 or 2 free characters of a 9-letter alphabet, prefixed, UUID-shaped with three free places, or 80 characters long; one document per readable class.',
     'The document tree is symbolic; the reader is executed on it.',
     'Bounded number of objects; identifiers from the stated shapes.', XMLIN, ['PyCIM.RDFXMLReader.cimread', 'every __init__ of CIM14 and CIM15'])

prop('R02', 'Reading gives every attribute its value in its type',
     'The text of an attribute element becomes the value of that attribute of that object: integers and reals in any spelling their type admits, truth values in any capitalisation or as 1 and 0, also with white space around them, and strings exactly as the document has them, of any length, empty ones as the empty string. '
     'Attributes the document does not give keep their defaults, whatever other objects of the class were given.',
     ['inputs'], 'Every attribute of every readable class, every value of its type, texts of any characters XML can carry.',
     'Tests look at a few attributes of fixed files; wrong values need particular texts or particular classes.',
     RD, RM, 'All attributes of every readable class with symbolic values: all integers and all doubles in the spelling of the interpreter, a table of other spellings, all digit strings of 3 and 8 digits with sign; all capitalisations, 1 and 0, white space around (two representatives; thorough: all); strings of 1-4 free characters (thorough 6) and padded to 5,000.',
     'The document tree is symbolic; the reader is executed on it.',
     'Spellings of reals other than the interpreter\'s own come from a table (14), not from all decimal texts.', XMLIN, ['PyCIM.RDFXMLReader.cimread'])

prop('R03', 'Reading makes exactly the links the document states',
     'A reference in a document links its object with the object of the given identifier on both sides, exactly once, whether it is stated at one end or both and whether the target stands before or after. '
     'References to objects that are not there leave the feature as it was and do not prevent the other ones from being read; list references keep the order of the document, and a single reference that is stated for several targets has the first.',
     ['inputs'], 'Every reference of every readable class; all identifiers within the bounds; every order of the elements; stated at either or both ends.',
     'Tests count a few references of fixed files.',
     RD, RM, 'Every reference of every readable class: 1-3 targets, all positions, one or both ends, optionally dangling ones between them; networks of 2 sources (thorough 3) and 2 targets with symbolic identifiers; three statements of a single reference for up to two targets and none, in one or two elements; 40 and 150 objects.',
     'The document tree is symbolic; the reader is executed on it.',
     'Bounded: three targets; larger documents with one symbolic place only.', XMLIN, ['PyCIM.RDFXMLReader.cimread', 'add/set accessors of CIM14 and CIM15'])

prop('R04', 'Reading gives enumerations their literal',
     'An enumeration resource sets the attribute it is given for to the literal after the last dot, whatever the namespace and name of the enumeration look like, and replaces the default. '
     'Nothing else of this or another object changes.',
     ['inputs'], 'Every enumeration attribute of every readable class; literals of 1-5 characters.',
     'Tests read a few fixed literals.',
     RD, RM, 'Every enumeration attribute of every readable class; literal of 1-5 characters over an 8-letter alphabet; four forms of resource (document namespace, namespace with dots, type name with dots, 300 characters); stated once or twice; two objects in either order.',
     'The document tree is symbolic; the reader is executed on it.',
     'Bounded literal length and alphabet.', XMLIN, ['PyCIM.RDFXMLReader.cimread'])

prop('R05', 'Reading skips what the class model does not know',
     'Elements of unknown classes, names that no class declares as an attribute or reference (also where the implementation has something of that name), statements of another kind than the feature (a text for a reference, a resource for a plain attribute, for an enumeration one without a literal, for a reference one that is no #identifier), elements of other namespaces and headers are skipped without an error, wherever they stand. '
     'Nothing of what is skipped reaches the objects around it, and these are read as if it were not there.',
     ['inputs'], 'Ten kinds of foreign content at every place of a document of two objects, with any values; every feature of every readable class with statements of the wrong kind.',
     'The test files contain only what the model knows.',
     RD, RM, 'Six classes (thorough: every readable class with a name); ten kinds of unknown content, one or two at a time, every position, symbolic values; foreign namespaces that are or are not similar to the CIM namespace; model headers. Every readable class: each feature it declares (thorough: and inherits) with up to seven statements of the wrong kind, and names of the implementation.',
     'The document tree is symbolic; the reader is executed on it.',
     'Bounded: one foreign element beside two objects.', XMLIN, ['PyCIM.RDFXMLReader.cimread'])

prop('R06', 'The version or profile asked for decides the classes',
     'Without a profile, the CIM namespace of the document selects the version: CIM14 for its namespace, else CIM15, always matching elements in the namespace the document declares; with a profile, its class table and namespace decide whatever the document declares and whatever was read before. '
     'A class table without namespace or the reverse is refused before anything is read, and every class of every table can be loaded from its package.',
     ['inputs', 'configurations'], 'All namespaces of the stated forms, prefix order, every class of every profile.',
     'Tests read one CIM14 and one CIM15 file.',
     RD + ['CIM14/__init__.py', 'CIM15/__init__.py', 'CIM14/*/__init__.py'], [dict(name='get_cim_ns, xmlns, packageMap', where='PyCIM/RDFXMLReader.py; __init__.py of the profiles')],
     'Namespaces: the three known ones, .../20YY/CIM-schema-cim1V with symbolic digits, others with two symbolic characters; eight element names; three reads in turn with two tables, under one namespace or two, for every pair of tables that differ; every class of every profile (thorough: of both versions).',
     'The document tree and namespace are symbolic; the reader is executed on it.',
     'Bounded namespace forms. The cim prefix must be called cim.', XMLIN, ['PyCIM.RDFXMLReader.cimread', 'xmlns', 'get_cim_ns', 'get_rdf_ns'])

prop('R07', 'Reads are independent of the kind of source and of earlier reads',
     'A path, a binary stream and a text stream of the same document yield the same objects. '
     'Reads share nothing: what was read before, from whatever document or CIM version, influences neither the result nor the earlier results.',
     ['histories', 'inputs'], 'Three reads in one process of documents with symbolic contents, across versions.',
     'Tests read each file once.',
     RD, RM, 'Three documents of 1-2 objects in sequence with symbolic identifiers, names and presence of targets; path and stream.',
     'Three executions of the reader in one path; all results are compared with their own documents.',
     'Bounded: three reads.', XMLIN, ['PyCIM.RDFXMLReader.cimread'])

WR = ['PyCIM/RDFXMLWriter.py', 'PyCIM/SimpleXMLWriter.py']
WM = [dict(name='cimwrite over _attrs/_enums/_refs/_many_refs of the class chain', where='PyCIM/RDFXMLWriter.py: cimwrite'),
      dict(name='escaping', where='PyCIM/SimpleXMLWriter.py: escape_cdata, escape_attrib')]

prop('R08', 'Reading a model document by document equals reading it whole',
     'cimread with start_dict adds the objects of the document to the given dictionary and returns it: the objects that are there stay, with their values and links, except for what the document states about them, and the document may refer to and describe them. '
     'Values come in the type the class declares, whatever the attribute held before. Reading a model split over two documents, the second of which may refer to the first, gives the same objects, values and links as reading one document with all of it.',
     ['inputs', 'histories'], 'Every reference of every readable class across the cut; all identifiers within the bounds; every cut of the elements; further descriptions of earlier objects.',
     'No test reads into an existing dictionary.',
     ['PyCIM/RDFXMLReader.py', 'CIM14', 'CIM15'], [dict(name='start_dict', where='PyCIM/RDFXMLReader.py: cimread')],
     'Two sources and two targets with symbolic identifiers (three shapes; thorough: six), each in either document, each reference to either target or none, optional further description of a target or source; parser in step with the events or ahead of them. Every reference of every readable class with one source and target. Every attribute of every readable class (declared; thorough: and inherited) in an object that held values of other types.',
     'The dictionary from two documents is compared with that from one, feature by feature.',
     'Bounded: up to four objects in two documents.', assume=XMLIN, functions=['PyCIM.RDFXMLReader.cimread', 'xmlns', 'get_rdf_ns', 'get_cim_ns', 'accessors called by setattr/add'])

prop('R09', 'What cannot be read is reported, and leaves no trace',
     'When a document breaks off, is not well-formed or its source fails, at whatever place, cimread raises an error instead of returning part of the model: the objects of a given dictionary are still there with the values and links they had, and later reads, also of the same source, are complete. '
     'A text that is no number never becomes the value of a number attribute: it is reported, or the attribute keeps its default.',
     ['fault_sequences', 'inputs'], 'A fault after every tag of a document, three kinds of faults, with and without a given dictionary; all short texts over the characters numbers are made of.',
     'No test reads a broken document or a malformed number.',
     RD, RM, 'Documents of two or three objects, fault (end of data, garbage, failing source) after each of their tags, parser in step with the events or ahead of them; texts of 1-2 (thorough 3) characters of a 20-letter alphabet for twelve classes of each number type.',
     'The fault position is symbolic; the reader is executed on the broken document and on the whole one after it.',
     'Bounded: three objects, one fault.', assume=XMLIN, functions=['PyCIM.RDFXMLReader.cimread', 'xmlns'])

prop('R10', 'Reads under way at the same time do not touch each other',
     'Two calls of cimread that are under way at the same time, in two threads or because the source of the one leads to the other, on sources and dictionaries of their own, give what each gives alone, whatever their documents share (identifiers, classes, namespaces) and wherever the one is overtaken by the other.',
     ['schedules', 'inputs'], 'The first read up to any tag of any of its passes, the second up to a tag (thorough: any), then each to its end.',
     'Tests read one document at a time.',
     RD, RM, 'Documents of two objects and three, with a name, an unknown name, a reference and a further description, identifiers and names that may be equal; same and different versions and classes; 28 places of the first read with 13 of the second (thorough 36).',
     'The schedule is part of the inputs; the two calls run in two threads that are handed on at tags.',
     'Bounded: two reads, two switches, only where a source is asked for more.', assume=XMLIN, functions=['PyCIM.RDFXMLReader.cimread', 'xmlns', 'get_cim_ns', 'get_rdf_ns'])

prop('R11', 'What reading leaves out is reported in the log',
     'Every resource of a class that is not known, every name that the class of an object does not have (with how often it came), every statement of another kind than its feature and every reference to an object that is not there is named in a message of level warning or above. Reading a document of a known version nothing of which is left out causes no such message.',
     ['inputs'], 'Any identifier, any place in the document.',
     'Tests do not look at the log.',
     RD, RM, 'Documents of two objects and one thing that is left out, of five kinds, at every place among the statements, up to three times; identifiers of four shapes (thorough eight).',
     'The messages that reach the root logger are compared with what was left out of the document; only level and the names in the text count, not its wording.',
     'Bounded: two objects, one kind of thing left out.', assume=XMLIN, functions=['PyCIM.RDFXMLReader.cimread', 'declaring_class'])

prop('W01', 'A written document holds every object, whatever its texts',
     'Writing yields a well-formed RDF/XML document in the CIM namespace of the objects, with one element per object of the dictionary, in its order, named by its class and carrying its identifier. '
     'Any text in names and identifiers, of any length and with any characters XML can carry, is what a parser reads back, also from a file, whatever the encoding asked for and the locale.',
     ['inputs'], 'Every class; texts and identifiers of any characters XML admits.',
     'Tests write one fixed model of plain texts.',
     WR, WM, 'One document per class; documents of 1-2 objects (thorough 3); texts of 1-3 free characters (thorough 4) and padded to 8,190; identifiers of 1-2 free characters; files in four encodings; 40 and 150 objects with one symbolic place.',
     'The writer is executed on symbolic objects; its output text is tokenised and compared with the objects.',
     'Bounded number of free characters.', XMLOUT, ['PyCIM.RDFXMLWriter.cimwrite', 'PyCIM.SimpleXMLWriter.XMLWriter'])

prop('W02', 'A written document states every attribute that is not at its default',
     'Every attribute of a written object, own or inherited, whose value is not the default of the class model is stated once, under the class that declares it, by a text or resource that denotes exactly its value. '
     'Attributes that are not stated have their default value, and nothing is stated that the object does not have.',
     ['inputs'], 'Every attribute of every class with every value of its type.',
     'Tests compare one fixed model.',
     WR + GEN, WM + [dict(name='_attrs, _enums, _defaults', where='CIM14/**, CIM15/**')], 'Every class: each attribute it declares (thorough: and inherits) symbolic in turn, with all others at their defaults or all others set; all integers, all doubles, truth values, one free character of text.',
     'The writer is executed on a symbolic object; the statements of the output are compared with the object.',
     'One symbolic attribute at a time.', XMLOUT, ['PyCIM.RDFXMLWriter.cimwrite'])

prop('W03', 'A written document states every link, and no other',
     'Every link between a written object and another object is stated from at least one of its ends, by the identifier of the object at the other end, for every kind of reference. '
     'No link is stated that does not exist, and single references are stated at most once.',
     ['inputs'], 'Every reference of every class, with one and two targets, written with or without the targets, in either order.',
     'Tests compare one fixed model.',
     WR + GEN, WM + [dict(name='_refs, _many_refs', where='CIM14/**, CIM15/**')], 'Every class with all its references occupied (1-2 targets each); graphs of three objects and two targets with symbolic links for one representative of each kind; two objects (thorough three) of a class that can be at both ends of an association linked symbolically with any of them, themselves included.',
     'The writer is executed; the statements of the output are compared with the links.',
     'Bounded: two targets a reference.', XMLOUT, ['PyCIM.RDFXMLWriter.cimwrite'])

prop('W04', 'The XML writer writes the tree its calls describe',
     'For every balanced sequence of calls, what the XML writer has written is a well-formed document whose parse is the tree the calls describe: element nesting, attributes from dictionaries and keywords, and every character of text and attribute values. '
     'Ending an element that is not open, or under another name, is refused.',
     ['histories', 'inputs'], 'All call sequences up to the bound with all characters of text XML can carry.',
     'Tests use it only through one fixed model.',
     ['PyCIM/SimpleXMLWriter.py'], [dict(name='XMLWriter, escape_cdata, escape_attrib', where='PyCIM/SimpleXMLWriter.py')],
     'All sequences of 1-2 calls (start, data, end, element, comment, close; with attributes) with free characters from an alphabet of the ones that matter, 3 calls with two characters (thorough 3 and 4); texts of 1-3 (thorough 5) arbitrary characters through the escaping functions; both encodings.',
     'The calls and texts are symbolic; the output is tokenised and compared with the tree.',
     'Bounded sequence and text length.', XMLOUT, ['PyCIM.SimpleXMLWriter'])

prop('W05', 'Writing changes nothing and is complete when it returns',
     'Writing leaves the dictionary and all objects as they were and yields the same document when repeated, whatever was written in between. '
     'To a path, to a stream with a flush method or to one with nothing but write, the complete document has been handed over when the call returns; a stream keeps what it holds and is left open, and an error of the sink reaches the caller.',
     ['histories', 'inputs', 'fault_sequences'], 'All attribute values; three kinds of sinks; a refusal at every write; other documents in between.',
     'Tests write once and look at the file only.',
     WR, WM, 'Three objects, one reference, one symbolic attribute at a time; three kinds of sinks (thorough: every reference of every class). Two objects: a sink that refuses the k-th of up to 96 writes or the flush; two documents in one stream; documents of four other versions and profiles in between.',
     'A snapshot before and after, and two outputs, are compared.',
     'Bounded: three objects.', XMLOUT, ['PyCIM.RDFXMLWriter.cimwrite'])

prop('W06', 'Writes under way at the same time do not touch each other',
     'Two calls of cimwrite that are under way at the same time, in two threads or because the stream of the one leads to the other, to streams of their own, write what each writes alone, also when they write the same objects, wherever the one is overtaken by the other.',
     ['schedules', 'inputs'], 'The first write up to any call of its stream, the second up to a call (thorough: any), then each to its end.',
     'Tests write one document at a time.',
     WR, WM, 'Documents of two objects with a name, a reference and symbolic identifiers, of the same objects or of others of the same or another version; 28 places of the first write with ten of the second (thorough 27).',
     'The schedule is part of the inputs; the two calls run in two threads that are handed on when a stream is written to.',
     'Bounded: two writes, two switches, only where a stream is written to.', XMLOUT, ['PyCIM.RDFXMLWriter.cimwrite', 'PyCIM.SimpleXMLWriter.XMLWriter'])

prop('T01', 'Attributes survive writing and reading',
     'Writing objects of any class of either version or any profile and reading the document gives objects of the same classes with the same value in every attribute.',
     ['inputs'], 'Every readable class, every attribute, every value of its type.',
     'The only round-trip test compares counts for one model.',
     RD + WR, RM + WM, 'As W02 for the readable classes; texts of up to 3 free characters and up to 8,190 plain ones.',
     'Writer, tokenizer and reader are executed in one path; the objects are compared.',
     'One symbolic attribute at a time.', XMLIN + XMLOUT, ['PyCIM.RDFXMLWriter.cimwrite', 'PyCIM.RDFXMLReader.cimread'])

prop('T02', 'Links survive writing and reading',
     'Writing a set of objects with all they refer to, in any order, and reading the document gives the same links under the same identifiers, on both sides, for every kind of reference, whatever was written before.',
     ['inputs'], 'Every reference of every readable class; symbolic link relations and identifiers.',
     'The only round-trip test compares counts for one model.',
     RD + WR, RM + WM, 'Every reference of every readable class with two objects and two targets and a symbolic link relation, four orders; every class with all references occupied, three orders; two objects linked symbolically with each other or themselves; classes of one name of two versions or profiles in turn; symbolic identifiers and texts; 40 and 150 objects.',
     'Writer, tokenizer and reader are executed in one path; the objects are compared.',
     'Bounded: two objects and two targets; the order inside lists is not compared.', XMLIN + XMLOUT, ['PyCIM.RDFXMLWriter.cimwrite', 'PyCIM.RDFXMLReader.cimread'])

prop('P01', 'Pretty printing only adds line breaks and indentation',
     'Pretty printing keeps every element, attribute and text that is not blank, and replaces or adds blank text only so that each element of a nested structure starts on a line of its own, indented by its depth.',
     ['inputs'], 'Trees of up to four elements with arbitrary texts and tails.',
     'No test calls it.',
     ['PyCIM/PrettyPrintXML.py'], [dict(name='indent, xmlpp', where='PyCIM/PrettyPrintXML.py')],
     'Five shapes of trees (thorough seven), texts and tails absent, one free character (blank or not) or plain; paths and streams.',
     'The tree is symbolic; indent and xmlpp are executed on it.',
     'Bounded tree size.', ['xml.etree parse/tostring are stubs; counterexamples are replayed with the real ones'], ['PyCIM.PrettyPrintXML.indent', 'xmlpp'])

META = {}
for _k, _v in P.items():
    META[_k] = dict(explanation=ENGINE + _v['how'], bounds=_v['bounds'], assumptions=TRUST + _v['assume'], level=_v['level'])
    if _v['functions']:
        META[_k]['functions'] = _v['functions']
