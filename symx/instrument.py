"""Source-to-source instrumentation of the code under test.

Every module whose source lies under one of the instrumented roots (the repository, and the
harness modules in /verif/harness) is parsed from its *current* source on every run and compiled
with the operations that plain operator overloading cannot intercept redirected to `__sx__`
(symx.ops): calls, identity and membership tests, subscripts, `%` and f-strings, and dict/set
displays. Control flow is left exactly as written: branches fork through SymBool.__bool__.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

NATIVE_CALLS = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir'}
SPECIAL = {ast.Is: 'is_', ast.IsNot: 'is_not', ast.In: 'in_', ast.NotIn: 'not_in'}


def _hook(name):
    return ast.Attribute(ast.Name('__sx__', ast.Load()), name, ast.Load())


def _call(name, *args):
    return ast.Call(_hook(name), list(args), [])


class Instrument(ast.NodeTransformer):
    def __init__(self):
        self.tmp = 0

    def _loc(self, new, old):
        return ast.copy_location(new, old)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NATIVE_CALLS:
            return node
        return self._loc(ast.Call(_hook('call'), [node.func] + node.args, node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not any(type(o) in SPECIAL for o in node.ops):
            return node
        def one(op, l, r):
            if type(op) in SPECIAL:
                return _call(SPECIAL[type(op)], l, r)
            return ast.Compare(l, [op], [r])
        if len(node.ops) == 1:
            return self._loc(one(node.ops[0], node.left, node.comparators[0]), node)
        parts, left = [], node.left
        for i, (op, right) in enumerate(zip(node.ops, node.comparators)):
            if i < len(node.ops) - 1:
                self.tmp += 1
                t = '_sx_t%d' % self.tmp
                parts.append(one(op, left, ast.NamedExpr(ast.Name(t, ast.Store()), right)))
                left = ast.Name(t, ast.Load())
            else:
                parts.append(one(op, left, right))
        return self._loc(ast.BoolOp(ast.And(), parts), node)

    def _index(self, sl):
        if isinstance(sl, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(ast.Name('slice', ast.Load()), [sl.lower or none, sl.upper or none, sl.step or none], [])
        return sl

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not self._has_slice_tuple(node.slice):
            return self._loc(_call('getitem', node.value, self._index(node.slice)), node)
        return node

    @staticmethod
    def _has_slice_tuple(sl):
        return isinstance(sl, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in sl.elts)

    def _unsubscript(self, t, after):
        """The target with every subscript in it replaced by a name; `after` gets the stores."""
        if isinstance(t, ast.Subscript) and not self._has_slice_tuple(t.slice):
            self.temps = getattr(self, 'temps', 0) + 1
            n = 'symx_t%d' % self.temps
            after.append(ast.Expr(_call('setitem', ast.Name(n, ast.Load()), t.value, self._index(t.slice))))
            after.append(ast.Delete([ast.Name(n, ast.Del())]))
            return ast.Name(n, ast.Store())
        if isinstance(t, (ast.Tuple, ast.List)):
            return type(t)([self._unsubscript(e, after) for e in t.elts], ast.Store())
        if isinstance(t, ast.Starred):
            return ast.Starred(self._unsubscript(t.value, after), ast.Store())
        return t

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not self._has_slice_tuple(node.targets[0].slice):
            t = node.targets[0]
            return self._loc(ast.Expr(_call('setitem', node.value, t.value, self._index(t.slice))), node)
        after = []
        ts = [self._unsubscript(t, after) for t in node.targets]
        if after:
            return [self._loc(x, node) for x in [ast.Assign(ts, node.value)] + after]
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        after = []
        t = self._unsubscript(node.target, after)
        if after:
            node.target = t
            node.body[:0] = [self._loc(x, node) for x in after]
            ast.fix_missing_locations(node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(t, ast.Subscript) and not self._has_slice_tuple(t.slice):
            return self._loc(ast.Expr(_call('augitem', t.value, self._index(t.slice),
                                            ast.Constant(type(node.op).__name__), node.value)), node)
        if isinstance(node.op, ast.Mod) and isinstance(t, ast.Name):
            return self._loc(ast.Assign([t], _call('mod', ast.Name(t.id, ast.Load()), node.value)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not self._has_slice_tuple(t.slice):
                out.append(self._loc(ast.Expr(_call('delitem', t.value, self._index(t.slice))), node))
            else:
                out.append(self._loc(ast.Delete([t]), node))
        return out

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._loc(_call('mod', node.left, node.right), node)
        if isinstance(node.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            return self._loc(_call('setop', ast.Constant(type(node.op).__name__), node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return self._loc(_call('fstr', *parts), node)

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        if node.format_spec is not None:
            node.format_spec = self.visit(node.format_spec)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(_call('guard')))
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            parts = [ast.Tuple([v] if k is None else [k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
            return self._loc(_call('mkmerge', ast.Tuple(parts, ast.Load())), node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return self._loc(_call('mkdict', ast.Tuple([ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return self._loc(_call('mkset', ast.Tuple(node.elts, ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return self._loc(_call('mkdict', g), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._loc(_call('mkset', ast.GeneratorExp(node.elt, node.generators)), node)

    # annotations and decorators' argument-free parts need no hooks
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


STATS = {'modules': 0, 'functions': 0, 'lines': 0}
LOADED = {}     # module name -> (path, number of functions)


def compile_instrumented(path):
    with open(path, 'rb') as f:
        src = f.read()
    tree = ast.parse(src, path)
    nf = sum(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(tree))
    tree = Instrument().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True), nf, src.count(b'\n')


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code, nf, nl = compile_instrumented(self.path)
        STATS['modules'] += 1
        STATS['functions'] += nf
        STATS['lines'] += nl
        LOADED[self.name] = (self.path, nf)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = [os.path.realpath(r) + os.sep for r in roots]

    def find_spec(self, name, path=None, target=None):
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not spec.origin or not spec.origin.endswith('.py'):
            return None
        real = os.path.realpath(spec.origin)
        if not any(real.startswith(r) for r in self.roots):
            return None
        pkg = spec.submodule_search_locations is not None
        loader = Loader(name, spec.origin, pkg)
        new = importlib.util.spec_from_file_location(
            name, spec.origin, loader=loader,
            submodule_search_locations=spec.submodule_search_locations)
        return new


def install(roots, ops):
    sys.dont_write_bytecode = True
    builtins.__sx__ = ops
    sys.meta_path.insert(0, Finder(roots))
