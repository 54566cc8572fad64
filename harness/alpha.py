"""Groups accessor implementations that are the same text up to the names of the two ends.

The small bound is explored for every association of the model; the large bounds for one
representative per distinct implementation. A changed accessor is a new group of its own.
"""
import ast
import os

_src = {}


def _class_node(mod, name, path):
    key = path
    if key not in _src:
        with open(path) as f:
            tree = ast.parse(f.read())
        _src[key] = tree
    for n in _src[key].body:
        if isinstance(n, ast.ClassDef) and n.name == name:
            return n, _src[key]
    return None, _src[key]


class _Norm(ast.NodeTransformer):
    def __init__(self, names):
        self.names = sorted(names.items(), key=lambda kv: -len(kv[0]))
        self.map = names
        self.vars = {}

    def ren(self, s):
        for k, v in self.map.items():
            for p in ('', '_', 'get', 'set', 'add', 'remove', 'add_', 'remove_', 'del'):
                if s == p + k:
                    return p + '<%s>' % v
        return s

    def visit_Name(self, n):
        return ast.Name(self.ren(n.id), n.ctx)

    def visit_Attribute(self, n):
        self.generic_visit(n)
        return ast.Attribute(n.value, self.ren(n.attr), n.ctx)

    def visit_arg(self, n):
        return ast.arg(self.ren(n.arg), None)

    def visit_keyword(self, n):
        self.generic_visit(n)
        return ast.keyword(n.arg and self.ren(n.arg), n.value)

    def visit_Constant(self, n):
        return ast.Constant(self.ren(n.value)) if isinstance(n.value, str) else n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.name = self.ren(n.name)
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) \
                and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
        return n


def _mentions(node, feat):
    """Does a class-level statement concern the feature?"""
    names = {p + feat for p in ('get', 'set', 'add', 'remove', 'add_', 'remove_', 'del', '_')} | {feat}
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
        if node.name == '__init__':
            return False
        return node.name in names or node.name.startswith('__') or bool(node.decorator_list and node.name == feat)
    if isinstance(node, ast.Assign):
        return any(isinstance(t, ast.Name) and t.id in names for t in node.targets)
    return False


def end_key(k, feat, names, path):
    node, tree = _class_node(k.__module__, k.__name__, path)
    if node is None:
        return 'dynamic:' + k.__module__
    parts = []
    for s in node.body:
        if _mentions(s, feat):
            import copy
            parts.append(ast.dump(_Norm(names).visit(copy.deepcopy(s))))
    if not parts:
        return 'dynamic:%s.%s' % (k.__module__, feat)
    return '|'.join(parts)


def dunders(k):
    out = []
    for b in k.__mro__[:-1]:
        for n, v in sorted(vars(b).items()):
            if n.startswith('__') and n.endswith('__') and callable(v) and n not in ('__init__', '__weakref__'):
                out.append('%s.%s.%s' % (b.__module__, b.__name__, n))
    return tuple(out)


def pair_key(A, f, B, g, pathof):
    names = {f: 'F'}
    if g:
        names[g] = 'F' if g == f else 'G'
    ka = end_key(A, f, names, pathof(A))
    kb = end_key(B, g, names, pathof(B)) if g else ''
    return (ka, kb, f == g, dunders(A), dunders(B))
