"""XML documents as trees. Symbolically they reach the code under test through a stand-in for
ElementTree.iterparse/parse (real Element objects, events in document order); natively they are
rendered to text and read by the real parser."""
import io
import os
import sys
import tempfile
import xml.etree.ElementTree as ET

RDF = 'http://www.w3.org/1999/02/22-rdf-syntax-ns#'
_real_iterparse, _real_parse, _real_tostring = ET.iterparse, ET.parse, ET.tostring


class Node(object):
    __slots__ = ('tag', 'attrs', 'text', 'children', 'tail')

    def __init__(self, tag, attrs=(), text=None, children=(), tail='\n'):
        self.tag, self.attrs, self.text, self.children, self.tail = tag, list(attrs), text, list(children), tail


class Doc(object):
    """prefixes: [(prefix, uri)] declared at the root, in this order."""

    places = ()

    def __init__(self, prefixes, root):
        self.prefixes, self.root = list(prefixes), root
        self.point = None       # called before every tag, in every pass
        self.broken = None      # (k, how): after k tags 'cut' off, 'garbled' or the source 'fails'

    def tags(self):
        def count(n):
            return 2 + sum(count(c) for c in n.children)
        return count(self.root)

    def __str__(self):
        return '<document>'


class Source(object):
    """A seekable file-like source of a document (symbolic mode)."""

    def __init__(self, doc):
        self.doc, self.pos = doc, 0

    def seek(self, n, whence=0):
        self.pos = n
        return n

    def tell(self):
        return self.pos

    def seekable(self):
        return True

    readable = seekable

    def read(self, *a):
        from .core import Unsupported
        raise Unsupported('raw read of a symbolic document')
    readline = readlines = __iter__ = read

    def close(self):
        self.pos = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __str__(self):
        return '<document>'


class SourceFailed(OSError):
    """What a failing source raises."""


PATHS = {}          # symbolic paths -> Doc


def _start(src):
    """The document a source stands for; None if the source is not ours."""
    if isinstance(src, str) and type(src) is str:
        return PATHS.get(src)
    if type(src) is Source:
        if src.pos is None:
            raise ValueError('I/O operation on closed file.')
        if src.pos != 0:
            raise ET.ParseError('no element found: line 1, column 0')
        return src.doc
    return None


EAGER = [False]     # the parser is far ahead of the events (as it is with small documents)


class IterParse(object):
    def __init__(self, src, doc, events):
        self.src, self.events, self.root = src, events, None
        self.gen = self._ahead(doc) if EAGER[0] else self._run(doc)

    def __iter__(self):
        return self

    def __next__(self):
        if type(self.src) is Source:
            if self.src.pos is None:
                raise ValueError('I/O operation on closed file.')
            self.src.pos += 1
        return next(self.gen)
    next = __next__

    def close(self):
        pass

    def _ahead(self, doc):
        out, err = [], None
        try:
            for x in self._run(doc):
                out.append(x)
        except (ET.ParseError, SourceFailed) as ex:
            err = ex
        for x in out:
            yield x
        if err is not None:
            raise err

    def _tag(self, first=False):
        if self.point is not None and not first:
            self.point()
        if self.left is not None:
            if self.left == 0:
                if self.how == 'fails':
                    raise SourceFailed()
                raise ET.ParseError('no element found' if self.how == 'cut' else 'not well-formed (invalid token)')
            self.left -= 1

    def _run(self, doc):
        ev = self.events
        self.left, self.how = doc.broken or (None, None)
        self.point = doc.point
        if self.point is not None:
            self.point()                # before anything of the first tag, as its namespaces are
        if self.left == 0:
            self._tag()
        if 'start-ns' in ev:
            for p, u in doc.prefixes:
                yield 'start-ns', (p, u)
        for x in self._node(doc.root, None):
            yield x
        if 'end-ns' in ev:
            for p in doc.prefixes:
                yield 'end-ns', None

    def _node(self, n, parent):
        ev = self.events
        self._tag(parent is None)
        e = ET.Element(n.tag, dict(n.attrs))
        if parent is not None:
            parent.append(e)
        if 'start' in ev:
            yield 'start', e
        if n.text is not None:
            e.text = n.text
        last = None
        for c in n.children:
            for x in self._node(c, e):
                if x[0] == 'end':
                    last = x[1]
                yield x
            if last is not None and c.tail:
                last.tail = c.tail
        self._tag()
        if parent is None:
            self.root = e
        if 'end' in ev:
            yield 'end', e


def iterparse(source, events=None, parser=None):
    doc = _start(source)
    if doc is None:
        return _real_iterparse(source, events, parser)
    return IterParse(source, doc, tuple(events) if events is not None else ('end',))


def element(n):
    e = ET.Element(n.tag, dict(n.attrs))
    e.text = n.text
    for c in n.children:
        k = element(c)
        k.tail = c.tail
        e.append(k)
    return e


def parse(source, parser=None):
    doc = _start(source)
    if doc is None:
        return _real_parse(source, parser)
    if doc.broken:
        if doc.broken[1] == 'fails':
            raise SourceFailed()
        raise ET.ParseError('not well-formed')
    if type(source) is Source:
        source.pos += 1
    return ET.ElementTree(element(doc.root))


class Printed(object):
    """What tostring() was given (symbolic mode)."""

    def __init__(self, elem, args):
        self.elem, self.args = elem, args


def tostring(elem, *a, **k):
    from . import core
    if core.CUR is None:
        return _real_tostring(elem, *a, **k)
    return Printed(elem, (a, k))


def install():
    """Put the stand-ins in place; before any module of the code under test is imported."""
    mods = [ET]
    try:
        import xml.etree.cElementTree as c
        mods.append(c)
    except ImportError:
        pass
    for m in mods:
        m.iterparse, m.parse, m.tostring = iterparse, parse, tostring


# ------------------------------------------------------------------------------ native side
def esc(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
    if attr:
        s = s.replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')
    return s


def render(doc):
    names = {}
    for p, u in doc.prefixes:
        names.setdefault(u, p)

    def q(tag):
        if not tag.startswith('{'):
            return tag
        u, l = tag[1:].split('}')
        if u == 'http://www.w3.org/XML/1998/namespace':
            return 'xml:' + l
        return (names[u] + ':' if names[u] else '') + l
    out = ["<?xml version='1.0' encoding='utf-8'?>\n"]

    def emit(n, top):
        cuts.append(len(out))
        out.append('<' + q(n.tag))
        if top:
            for p, u in doc.prefixes:
                out.append(' xmlns%s="%s"' % (':' + p if p else '', esc(u, True)))
        for k, v in n.attrs:
            out.append(' %s="%s"' % (q(k), esc(v, True)))
        if n.text is None and not n.children and not doc.broken and not doc.point:
            out.append('/>')
        else:
            out.append('>' + esc(n.text or ''))
            for c in n.children:
                emit(c, False)
                out.append(esc(c.tail or ''))
            cuts.append(len(out))
            out.append('</%s>' % q(n.tag))
    cuts = []
    emit(doc.root, True)
    doc.places = set(len(''.join(out[:k]).encode('utf-8')) for k in cuts) if doc.point else ()
    if doc.broken:
        return ''.join(out[:cuts[doc.broken[0]]]) + ('<<' if doc.broken[1] == 'garbled' else '')
    return ''.join(out)


class Dribble(io.RawIOBase):
    """A binary stream that hands out one byte per read."""

    def __init__(self, data):
        self.b = io.BytesIO(data)

    def readable(self): return True
    def seekable(self): return True
    def read(self, n=-1): return self.b.read(1)
    def seek(self, *a): return self.b.seek(*a)
    def tell(self): return self.b.tell()


class Pausing(Dribble):
    """A stream that hands out one tag per read and calls back before."""

    def __init__(self, data, doc):
        Dribble.__init__(self, data)
        self.doc = doc

    def read(self, n=-1):
        at = self.b.tell()
        if at in self.doc.places:
            self.doc.point()
        ends = [p for p in self.doc.places if p > at]
        return self.b.read(min(ends) - at if ends else -1)


class Failing(Dribble):
    """A stream that fails where its data end."""

    def read(self, n=-1):
        c = self.b.read(1)
        if not c:
            raise SourceFailed()
        return c


_tmp = []


def scratch_dir():
    if not _tmp:
        d = tempfile.mkdtemp(prefix='symx')
        _tmp.append(d)
        import atexit
        import shutil
        atexit.register(shutil.rmtree, d, True)
    return _tmp[0]


def scratch(data):
    fd, p = tempfile.mkstemp(suffix='.xml', dir=scratch_dir())
    os.write(fd, data)
    os.close(fd)
    return p


def source(h, doc, kind='stream', reuse=None):
    """kind: 'stream' (binary, seekable), 'text' (text stream) or 'path'. reuse: a dictionary in which the
    path or stream is kept; with one in it, its content is replaced."""
    if kind == 'named':     # a stream with the name of a file that holds something else (as of a compressed one)
        s = _source(h, doc, 'buffer')
        s.name = _source(h, Doc([], Node('other', (), 'x')), 'path')
        return s
    if reuse and h.symbolic:
        s = reuse['source']
        if kind == 'path':
            PATHS[s] = doc
        else:
            s.doc, s.pos = doc, 0
        return s
    if reuse:
        s = reuse['source']
        data = render(doc).encode('utf-8')
        if kind == 'path':
            with open(s, 'wb') as f:
                f.write(data)
        else:
            s.seek(0)
            s.truncate(0)
            s.write(data)
            s.seek(0)
        return s
    s = _source(h, doc, kind if reuse is None or kind != 'stream' else 'buffer')
    if reuse is not None:
        reuse['source'] = s
    return s


def _source(h, doc, kind):
    if h.symbolic:
        if kind == 'path':
            n = h.count['path'] = h.count.get('path', 0) + 1
            p = '/nonexistent/symx/%d.xml' % n
            PATHS[p] = doc
            h.eng.open_stub = lambda f, *a, **k: Source(PATHS[f]) if f in PATHS else open(f, *a, **k)
            return p
        return Source(doc)
    text = render(doc)
    if kind == 'path':
        return scratch(text.encode('utf-8'))
    if kind == 'text':
        return io.StringIO(text.split('\n', 1)[1])
    data = text.encode('utf-8')
    if doc.broken and doc.broken[1] == 'fails':
        return Failing(data)
    if doc.point:
        return Pausing(data, doc)
    return Dribble(data) if h.mode == 'dribble' and kind != 'buffer' else io.BytesIO(data)
