"""Reading back what the code under test has written.

Symbolically: a reference XML tokenizer over (partly symbolic) characters, deciding with the solver
whether a symbolic character is markup. Natively: the real parser.
"""
import io
import os
import re
import xml.etree.ElementTree as ET
from .xmldoc import Doc, Node, Source, _real_iterparse


class Malformed(Exception):
    pass


ENT = {'amp': 38, 'lt': 60, 'gt': 62, 'quot': 34, 'apos': 39}
SP = (32, 9, 10, 13)


class Tok(object):
    def __init__(self, items):
        from .values import ceq, NumAtom
        from . import core
        self.s, self.i, self.n = items, 0, len(items)
        self.ceq, self.NumAtom, self.core = ceq, NumAtom, core

    def eq(self, k, code):
        if k >= self.n:
            return False
        x = self.s[k]
        if isinstance(x, int):
            return x == code
        if type(x) is self.NumAtom:
            if code not in x.charset():
                return False
        c = self.ceq(x, code)
        return c if isinstance(c, bool) else self.core.CUR.decide(c)

    def any(self, k, codes):
        return any(self.eq(k, c) for c in codes)

    def at(self, txt):
        return all(self.eq(self.i + j, ord(c)) for j, c in enumerate(txt))

    def need(self, txt):
        if not self.at(txt):
            raise Malformed('expected %r' % txt)
        self.i += len(txt)

    def space(self):
        k = self.i
        while self.i < self.n and self.any(self.i, SP):
            self.i += 1
        return self.i > k

    def name(self):
        st = self.i
        while self.i < self.n and not self.any(self.i, SP + (47, 62, 61, 60, 38, 34, 39)):
            self.i += 1
        its = self.s[st:self.i]
        if not its or not all(isinstance(x, int) for x in its):
            raise Malformed('bad name')
        t = ''.join(map(chr, its))
        if not (t[0].isalpha() or t[0] in '_:') or not all(c.isalnum() or c in '_:-.' for c in t):
            raise Malformed('bad name %r' % t)
        return t

    def entity(self):
        """Position after '&'."""
        st = self.i
        while True:
            if self.i >= self.n or self.i - st > 12:
                raise Malformed('unterminated entity')
            if type(self.s[self.i]) is self.NumAtom and self.i == st + 1:
                self.i += 1
                continue
            if self.eq(self.i, 59):
                break
            self.i += 1
        its = self.s[st:self.i]
        self.i += 1
        if len(its) == 2 and its[0] == 35 and type(its[1]) is self.NumAtom and its[1].kind == 'int':
            import z3
            from .values import citem
            e = its[1].num.e
            if z3.is_app_of(e, z3.Z3_OP_BV2INT) and e.arg(0).size() == 21:
                return citem(e.arg(0))
            return citem(z3.Int2BV(e, 21))
        if not all(isinstance(x, int) for x in its):
            raise Malformed('entity from data')
        t = ''.join(map(chr, its))
        if t in ENT:
            return ENT[t]
        try:
            if t.startswith('#x'):
                return int(t[2:], 16)
            if t.startswith('#'):
                return int(t[1:])
        except ValueError:
            pass
        raise Malformed('unknown entity %r' % t)

    def attvalue(self):
        q = 34 if self.eq(self.i, 34) else 39
        if not self.eq(self.i, q):
            raise Malformed('unquoted attribute')
        self.i += 1
        out = []
        while True:
            if self.i >= self.n:
                raise Malformed('unterminated attribute')
            if self.eq(self.i, q):
                self.i += 1
                return out
            if self.eq(self.i, 60):
                raise Malformed('< in attribute')
            if self.eq(self.i, 38):
                self.i += 1
                out.append(self.entity())
                continue
            if self.eq(self.i, 13):
                if self.eq(self.i + 1, 10):
                    self.i += 1
                out.append(32)
            elif self.any(self.i, (9, 10)):
                out.append(32)
            else:
                out.append(self.s[self.i])
            self.i += 1

    def chardata(self):
        out = []
        while self.i < self.n and not self.eq(self.i, 60):
            if self.eq(self.i, 38):
                self.i += 1
                out.append(self.entity())
                continue
            if self.eq(self.i, 93) and self.eq(self.i + 1, 93) and self.eq(self.i + 2, 62):
                raise Malformed(']]> in text')
            if self.eq(self.i, 13):
                if self.eq(self.i + 1, 10):
                    self.i += 1
                out.append(10)
            else:
                out.append(self.s[self.i])
            self.i += 1
        return out

    def misc(self):
        """Comments and processing instructions; True if one was skipped."""
        if self.at('<!--'):
            self.i += 4
            while not self.at('--'):
                if self.i >= self.n:
                    raise Malformed('unterminated comment')
                self.i += 1
            self.need('-->')
            return True
        if self.at('<?'):
            self.i += 2
            if self.at('xml') and not self.at('xml-'):
                raise Malformed('late XML declaration')
            while not self.at('?>'):
                if self.i >= self.n:
                    raise Malformed('unterminated instruction')
                self.i += 1
            self.i += 2
            return True
        return False

    def element(self, scope):
        from .values import mkstr
        self.need('<')
        q = self.name()
        attrs, seen = [], set()
        decls = []
        while True:
            sp = self.space()
            if self.at('/>') or self.at('>'):
                break
            if not sp:
                raise Malformed('no space before an attribute')
            a = self.name()
            self.space()
            self.need('=')
            self.space()
            v = mkstr(self.attvalue())
            if a in seen:
                raise Malformed('attribute twice')
            seen.add(a)
            if a == 'xmlns' or a.startswith('xmlns:'):
                decls.append((a[6:], v))
            else:
                attrs.append((a, v))
        if decls:
            scope = dict(scope, **dict(decls))

        def res(x, attr):
            if ':' in x:
                p, l = x.split(':', 1)
                if p not in scope or ':' in l or not l:
                    raise Malformed('unknown prefix %r' % p)
                return '{' + scope[p] + '}' + l
            if not attr and scope.get(''):
                return '{' + scope[''] + '}' + x
            return x
        attrs = [(res(a, True), v) for a, v in attrs]
        for i, (a, v) in enumerate(attrs):
            if any(type(a) is str and type(b) is str and a == b for b, w in attrs[:i]):
                raise Malformed('attribute twice')
        node = Node(res(q, False), attrs, None, [], None)
        if self.at('/>'):
            self.i += 2
            return node, decls
        self.i += 1
        cur, last = [], None

        def flush():
            t = mkstr(cur) if cur else None
            if last is None:
                node.text = t
            else:
                last.tail = t
        while True:
            cur.extend(self.chardata())
            if self.misc():
                continue
            flush()
            if self.at('</'):
                self.i += 2
                if self.name() != q:
                    raise Malformed('mismatched end tag')
                self.space()
                self.need('>')
                return node, decls
            if self.i >= self.n:
                raise Malformed('unterminated element')
            last, _ = self.element(scope)
            node.children.append(last)
            cur = []

    def document(self):
        self.encoding = None
        if self.at('<?xml'):
            self.i += 5
            self.space()
            self.need('version')
            self.need('=')
            self.attvalue()
            if self.space() and self.at('encoding'):
                self.i += 8
                self.need('=')
                from .values import mkstr
                self.encoding = mkstr(self.attvalue())
            self.space()
            self.need('?>')
        while True:
            self.space()
            if not self.misc():
                break
        root, decls = self.element({'xml': 'http://www.w3.org/XML/1998/namespace'})
        while True:
            self.space()
            if not self.misc():
                break
        if self.i < self.n:
            raise Malformed('text after the document')
        return Doc(decls, root)


def native_tree(data):
    decls, root, stack = [], None, []
    try:
        for ev, e in _real_iterparse(io.BytesIO(data), ('start', 'end', 'start-ns')):
            if ev == 'start-ns':
                if not stack:
                    decls.append(e)
                continue
            if ev == 'start':
                stack.append(e)
                root = root if root is not None else e
            else:
                stack.pop()
    except ET.ParseError as ex:
        raise Malformed(str(ex))

    def conv(e):
        return Node(e.tag, list(e.attrib.items()), e.text, [conv(c) for c in e], e.tail)
    return Doc(decls, conv(root))


class Sink(object):
    """What the code under test writes to: a text stream that can be flushed."""

    def __init__(self, native=False):
        self.chunks, self.flushed, self.closed = [], 0, False

    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        self.chunks.append(s)
        return 0

    def writelines(self, it):
        for s in it:
            self.write(s)

    def writable(self):
        return True

    def flush(self):
        self.flushed = len(self.chunks)

    def close(self):
        self.flush()
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def codec(name):
    """The codec family of an encoding name and the highest character it has."""
    if name is None or name == 'locale':
        return 'ascii', 0x7f        # the poorest locale
    import codecs
    n = codecs.lookup(name).name
    for pre in ('utf-8', 'utf-16', 'utf-32'):
        if n.startswith(pre):
            return pre, 0x10ffff
    if n == 'ascii':
        return n, 0x7f
    if n == 'iso8859-1':
        return n, 0xff
    from .core import Unsupported
    raise Unsupported('encoding %s' % name)


class File(Sink):
    """A text file opened for writing: what it encodes, and what it refuses to."""

    def __init__(self, eng, encoding=None, errors=None):
        Sink.__init__(self)
        self.eng, self.errors = eng, errors or 'strict'
        self.codec, self.top = codec(encoding)
        self.plain = True       # ASCII so far

    def write(self, s):
        from .values import items_of
        if self.top < 0x10ffff or self.codec != 'utf-8':
            for c in items_of(s):
                if self.above(c, 0x7f):
                    if self.above(c, self.top) and self.errors != 'xmlcharrefreplace':
                        if self.errors != 'strict':
                            from .core import Unsupported
                            raise Unsupported('errors=%r' % self.errors)
                        raise UnicodeEncodeError(self.codec, '?', 0, 1, 'ordinal not in range')
                    elif not self.above(c, self.top):
                        self.plain = False      # (a character reference is the character to whom reads it)
        elif self.plain:
            self.plain = all(isinstance(c, int) and c < 128 for c in items_of(s))
        return Sink.write(self, s)

    def above(self, c, top):
        if isinstance(c, int):
            return c > top
        import z3
        if not isinstance(c, z3.BitVecRef):
            return False            # the text of a number
        return self.eng.decide(z3.UGT(c, top))


class Bare(object):
    """Only a write method."""

    def __init__(self):
        self.chunks = []

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        self.chunks.append(s)


PREVIOUS = 'previous content\n' * 2000


class Output(object):
    """kind: 'sink', 'bare' or 'path'. `target` goes to the writer."""

    def __init__(self, h, kind='sink'):
        self.h, self.kind = h, kind
        if kind == 'bare':
            self.target = self.sink = Bare()
        elif kind == 'sink':
            self.target = self.sink = Sink()
        elif h.symbolic:
            from .xmldoc import scratch_dir
            self.sink = Sink()
            self.opened = 0
            self.target = os.path.join(scratch_dir(), '%d.xml' % os.getpid())
            with open(self.target, 'w') as f:       # for who asks whether it exists; it is not read or written
                f.write(PREVIOUS)
            self.content = PREVIOUS
            h.eng.open_stub = self._open
        else:
            from .xmldoc import scratch
            self.target = scratch(PREVIOUS.encode())

    def _open(self, f, mode='r', *a, **k):
        if f != self.target:
            return open(f, mode, *a, **k)
        from .core import Unsupported
        names = ('buffering', 'encoding', 'errors', 'newline', 'closefd', 'opener')
        k = dict(zip(names, a), **k)
        mode = mode.replace('t', '')
        if mode in ('x', 'x+'):
            raise FileExistsError(17, 'File exists', self.target)
        if mode not in ('w', 'w+', 'a', 'a+', 'r+') or set(k) - set(names) or k.get('newline') not in (None, '', '\n'):
            raise Unsupported('open(%r, %r)' % (mode, k))
        if 'w' in mode:
            self.content = ''
        if self.opened and self.content:
            raise Unsupported('opened twice')
        self.opened += 1
        self.mode = mode
        self.sink = File(self.h.eng, k.get('encoding'), k.get('errors'))
        return self.sink

    def text(self):
        if self.kind == 'path' and not self.h.symbolic:
            data = self.bytes()
            m = re.match(br"<\?xml version='1.0' encoding='([\w-]+)'", data)
            name = 'utf-16' if data[:2] in (b'\xff\xfe', b'\xfe\xff') else m.group(1).decode() if m else 'utf-8'
            try:
                return data.decode(name)
            except UnicodeError:
                self.h.fail('not in its encoding')
        if not self.h.symbolic:
            return ''.join(self.sink.chunks)
        from .values import items_of, mkstr
        out = []
        for c in self.sink.chunks:
            out.extend(items_of(c))
        if self.kind == 'path' and self.content:
            out = items_of(self.content) + out if 'a' in self.mode else out + items_of(self.content)[len(out):]
        return mkstr(out)

    def complete(self):
        """Has everything written been flushed?"""
        return self.kind == 'bare' or (self.kind == 'path' and not self.h.symbolic) or self.sink.flushed == len(self.sink.chunks)

    def tree(self):
        """The document (Doc) that was written; raises Malformed."""
        if self.h.symbolic:
            from .values import items_of
            tok = Tok(items_of(self.text()))
            doc = tok.document()
            if type(self.sink) is File and not (self.sink.plain and self.sink.codec in ('ascii', 'utf-8', 'iso8859-1')):
                if codec(str(tok.encoding) if tok.encoding is not None else 'utf-8')[0] != self.sink.codec:
                    raise Malformed('in another encoding than declared')
            return doc
        return native_tree(self.bytes())

    def bytes(self):
        if self.kind == 'path':
            with open(self.target, 'rb') as f:
                return f.read()
        # to a text stream: its encoding is not the writer's
        return re.sub("^(<\\?xml version='1.0') encoding='[^']*'", r'\1', self.text()).encode('utf-8')

    def source(self):
        """A source that reads it."""
        if self.h.symbolic:
            return Source(self.tree())
        data = self.bytes()
        from .xmldoc import Dribble
        return Dribble(data) if self.h.mode == 'dribble' else io.BytesIO(data)


def tree(h, out):
    try:
        return out.tree()
    except Malformed as ex:
        h.fail('not well-formed XML')
