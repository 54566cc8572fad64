"""Restores the state that outlives a call - module globals, class attributes, mutable default arguments, function
attributes, caches - so that every path starts from the state of a freshly imported program."""
import collections
import functools
import os
import sys
import types

CONT = (dict, list, set, bytearray, collections.deque)
CACHE = type(functools.lru_cache(maxsize=1)(lambda: 0))
SKIP = {'__builtins__', '__dict__', '__weakref__', '__doc__', '__module__', '__name__', '__file__', '__loader__', '__spec__', '__path__'}


def container(out, seen, v, depth=4):
    if id(v) in seen or depth == 0:
        return
    seen[id(v)] = v
    if isinstance(v, dict):
        out.append((v, 'map', dict(v)))
        for x in list(v.values()):
            value(out, seen, x, depth - 1)
    else:
        out.append((v, 'seq', list(v)))
        for x in list(v):
            value(out, seen, x, depth - 1)


def value(out, seen, v, depth=4):
    t = type(v)
    if t in (str, int, float, bool, type(None), tuple):
        return
    if isinstance(v, CONT):
        container(out, seen, v, depth)
    elif t is types.FunctionType:
        function(out, seen, v)
    elif t is CACHE:
        if id(v) not in seen:
            seen[id(v)] = v
            out.append((v, 'cache', None))
            function(out, seen, v.__wrapped__)
    elif isinstance(v, property):
        for f in (v.fget, v.fset, v.fdel):
            if f is not None:
                value(out, seen, f, depth)
    elif isinstance(v, (staticmethod, classmethod)):
        value(out, seen, v.__func__, depth)
    elif depth and hasattr(t, '__module__') and t.__module__ in MODS and hasattr(v, '__dict__') and id(v) not in seen:
        seen[id(v)] = v                 # an instance kept in a module or class
        out.append((v.__dict__, 'map', dict(v.__dict__)))
        for x in list(v.__dict__.values()):
            value(out, seen, x, depth - 1)


def function(out, seen, f):
    if id(f) in seen:
        return
    seen[id(f)] = f
    for d in (f.__defaults__ or ()):
        value(out, seen, d)
    for d in (f.__kwdefaults__ or {}).values():
        value(out, seen, d)
    if f.__module__ in DEEP or f.__dict__:
        out.append((f.__dict__, 'map', dict(f.__dict__)))
    for c in f.__closure__ or ():
        try:
            value(out, seen, c.cell_contents)
        except ValueError:
            continue
        if f.__module__ in DEEP:
            out.append((c, 'cell', c.cell_contents))


def klass(out, seen, k):
    if id(k) in seen:
        return
    seen[id(k)] = k
    out.append((k, 'class', dict(k.__dict__)))
    for n, v in list(k.__dict__.items()):
        if n not in SKIP:
            value(out, seen, v)


MODS = set()
DEEP = set()


class State(object):
    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        MODS.clear()
        DEEP.clear()
        mods = []
        for n, m in sorted(sys.modules.items()):
            f = getattr(m, '__file__', None)
            if f and os.path.realpath(f).startswith(self.root):
                mods.append(m)
                MODS.add(n)
                if n.split('.')[0] not in ('CIM14', 'CIM15'):
                    DEEP.add(n)
        seen = {}
        self.core = []          # restored before every path
        self.classes = {}       # class -> its part
        self.all = []
        for m in mods:
            deep = m.__name__ in DEEP
            out = self.core if deep else self.all
            out.append((m, 'module', dict(m.__dict__)))
            for n, v in list(m.__dict__.items()):
                if n in SKIP:
                    continue
                if isinstance(v, type):
                    if v.__module__ == m.__name__:
                        part = []
                        klass(part, seen, v)
                        if deep:
                            self.core.extend(part)
                        else:
                            self.classes[v] = part
                            self.all.extend(part)
                elif isinstance(v, types.ModuleType):
                    continue
                elif getattr(v, '__module__', m.__name__) == m.__name__ or not callable(v):
                    value(out, seen, v)

    def restore(self, parts):
        for obj, kind, saved in parts:
            if kind == 'map':
                if not same_map(obj, saved):
                    dict.clear(obj)
                    dict.update(obj, saved)
            elif kind == 'seq':
                if len(obj) != len(saved) or any(a is not b for a, b in zip(obj, saved)):
                    obj.clear()
                    (obj.update if isinstance(obj, set) else obj.extend)(saved)
            elif kind == 'module':
                d = obj.__dict__
                if not same_map(d, saved):
                    for n in list(d):
                        if n not in saved and not isinstance(d[n], types.ModuleType):
                            del d[n]
                    d.update(saved)
            elif kind == 'class':
                d = obj.__dict__
                if not same_map(d, saved):
                    for n in list(d):
                        if n not in saved:
                            type.__delattr__(obj, n)
                    for n, v in saved.items():
                        if n not in d or d[n] is not v:
                            type.__setattr__(obj, n, v)
            elif kind == 'cell':
                if obj.cell_contents is not saved:
                    obj.cell_contents = saved
            elif kind == 'cache':
                obj.cache_clear()

    def full(self):
        self.restore(self.all)
        self.restore(self.core)

    def scope(self, classes):
        """What to restore before every path of a task that concerns these classes."""
        out = list(self.core)
        done = set()
        for k in classes:
            for c in k.__mro__:
                if c in self.classes and c not in done:
                    done.add(c)
                    out.extend(self.classes[c])
        return out


def same_map(a, b):
    if len(a) != len(b):
        return False
    for k, v in b.items():
        if a.get(k, MISSING) is not v:
            return False
    return True


MISSING = object()
