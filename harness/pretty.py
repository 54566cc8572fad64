"""Pretty printing (P01)."""
import xml.etree.ElementTree as ET
from symx.xmldoc import Doc, Node, source, Printed
from symx.xmltok import native_tree

SOURCE_MODES = ('plain', 'dribble')


def build(h, shape, depth=0, fixed=None):
    """A tree of this shape (nested tuples) with symbolic text, tails and attributes; fixed: what the first of them are."""
    fixed = list(fixed or ()) if not isinstance(fixed, list) else fixed
    kinds = 3
    def t(name):
        k = fixed.pop(0) if fixed else h.choice(name, kinds)
        return None if k == 0 else h.str(name + '_s', 1, ok=' \n\tab') if k == 1 else 'text'
    n = Node('e%d' % depth if depth != 1 else '{urn:x#}e1', [('k', h.str('k', 1, ok='ab \n'))] if depth == 1 else [], t('text'), [build(h, s, depth + 1, fixed) for s in shape],
             t('tail') if depth else None)
    return n


def element(n):
    e = ET.Element(n.tag, dict(n.attrs))
    e.text = n.text
    for c in n.children:
        k = element(c)
        k.tail = c.tail
        e.append(k)
    return e


def blank(h, s):
    if s is None:
        return True
    return h.branch(h.eq(s.strip(), ''))


def check(h, n, e, level, last, nlevel):
    """e is n with indentation."""
    h.check(e.tag == n.tag, 'tag')
    h.check(len(e.attrib) == len(n.attrs), 'attributes')
    for k, v in n.attrs:
        h.check(h.eq(e.attrib[k], v), 'attribute')
    h.check(len(list(e)) == len(n.children), 'children')
    if n.children and blank(h, n.text):
        h.check(h.eq(e.text or '', '\n' + '  ' * (level + 1)), 'line of the first child')
    else:
        h.check(h.eq(e.text or '', n.text or ''), 'text')
    if level:
        if blank(h, n.tail):
            h.check(h.eq(e.tail or '', '\n' + '  ' * (level - 1 if last else level)), 'line after an element')
        else:
            h.check(h.eq(e.tail or '', n.tail or ''), 'tail')
    else:
        h.check(blank(h, e.tail), 'nothing after the root')
    kids = list(e)
    for i, c in enumerate(n.children):
        check(h, c, kids[i], level + 1, i == len(n.children) - 1, level)


def indent(h, shape, fixed=()):
    from PyCIM.PrettyPrintXML import indent as ind
    n = build(h, shape, fixed=list(fixed))
    e = element(n)
    ind(e)
    check(h, n, e, 0, True, 0)
    h.reach('indent')


def printed(h, shape, kind, fixed=()):
    """xmlpp: the printed document is the document, with the elements on lines of their own."""
    from PyCIM.PrettyPrintXML import xmlpp
    n = build(h, shape, fixed=list(fixed))
    r = xmlpp(source(h, Doc([('p', 'urn:x#')], n), kind))
    if h.symbolic:
        h.check(type(r) is Printed, 'the printed document is returned')
        e = r.elem
    else:
        e = ET.fromstring(r)
    check(h, n, e, 0, True, 0)
    h.reach('printed')
