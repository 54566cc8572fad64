"""Runtime of the instrumentation: what `__sx__` does for symbolic operands.

With concrete operands every hook performs the ordinary Python operation.
"""
import builtins
import codecs
import collections
import functools
import io
import math
import operator
import os
import re
import sys
import types

from . import core
from .core import EngineSignal, Unsupported
from .values import (Sym, SymBool, SymInt, SymFloat, SymStr, SymRef, SymBytes, hexdigits, str_repr, NumAtom, SYM_TYPES, E, items_of, mkstr,
                     mkbool, znot, zor, truth, same_ref, resolve, parse_int, parse_float, sym_float, z3)

from . import symre
from .state import CACHE

FT, MT = types.FunctionType, types.MethodType
BUILTIN_T = (types.BuiltinFunctionType, types.MethodWrapperType, types.WrapperDescriptorType,
             types.MethodDescriptorType, types.ClassMethodDescriptorType)


def sym(x):
    return type(x) in SYM_TYPES


def anysym(args, kw):
    for a in args:
        t = type(a)
        if t in SYM_TYPES:
            return True
        if t in (list, tuple, set) and len(a) < 1000:
            for b in a:
                tb = type(b)
                if tb in SYM_TYPES:
                    return True
                if tb is tuple and any(type(c) in SYM_TYPES for c in b):
                    return True
        elif t is dict and len(a) < 1000:
            for k, v in a.items():
                if type(k) in SYM_TYPES or type(v) in SYM_TYPES:
                    return True
    for a in kw.values():
        if type(a) in SYM_TYPES:
            return True
    return False


# -- dictionaries with symbolic keys ----------------------------------------------------
MISSING = object()


def has_symkey(d):
    for k in d:
        if type(k) is SymStr:
            return True
    return False


def findkey(d, k):
    """The key of dict/set `d` equal to k on this path, or MISSING."""
    tk = type(k)
    if tk is SymRef:
        k = resolve(k)
        tk = type(k)
    if tk in (SymBool,):
        k = bool(k)
        tk = bool
    if tk is SymInt or tk is SymFloat:
        for c in d:
            if isinstance(c, (int, float)):
                if c == k:
                    return c
        return MISSING
    if tk is SymStr:
        for c in d:
            if type(c) is str or type(c) is SymStr:
                if k is c:
                    return c
                if k == c:          # forks
                    return c
        return MISSING
    if tk is str and core.CUR is not None and core.CUR.any_symkey and has_symkey(d):
        for c in d:
            if type(c) is str or type(c) is SymStr:
                if c == k:
                    return c
        return MISSING
    try:
        if k in d:
            return k
    except TypeError:
        raise
    return MISSING


def relevant(d, k):
    t = type(d)
    if not issubclass(t, (dict, set, frozenset)):
        return False
    tk = type(k)
    return tk in SYM_TYPES or (tk is str and core.CUR is not None and core.CUR.any_symkey)


def dict_set(d, k, v):
    k = resolve(k)
    c = findkey(d, k)
    if c is MISSING:
        if type(k) is SymStr:
            core.CUR.any_symkey = True
        elif sym(k):
            raise Unsupported('symbolic number as dictionary key')
        c = k
    (dict if type(d) is dict else type(d)).__setitem__(d, c, v)


def dict_get(d, k):
    c = findkey(d, k)
    if c is MISSING:
        if isinstance(d, collections.defaultdict) and d.default_factory is not None:
            v = call(d.default_factory)
            dict_set(d, k, v)
            return v
        if isinstance(d, collections.Counter):
            return 0
        raise KeyError(k)
    return dict.__getitem__(d, c)


class SymStringIO(object):
    """io.StringIO for texts that may be symbolic."""

    def __init__(self, initial='', newline='\n'):
        self.items, self.pos, self.closed = list(items_of(initial)), 0, False

    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        its = items_of(s)
        if its is None:
            raise TypeError("string argument expected, got '%s'" % type(s).__name__)
        self.items[self.pos:self.pos + len(its)] = its
        self.pos += len(its)
        return len(its)

    def writelines(self, it):
        for s in it:
            self.write(s)

    def getvalue(self):
        return mkstr(self.items)

    def read(self, n=-1):
        r = self.items[self.pos:] if n is None or n < 0 else self.items[self.pos:self.pos + n]
        self.pos += len(r)
        return mkstr(r)

    def seek(self, n, whence=0):
        self.pos = len(self.items) if whence == 2 else n
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        del self.items[self.pos if n is None else n:]

    def readable(self):
        return True
    writable = seekable = readable

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        if relevant(d, k):
            dict_set(d, k, v)
        else:
            d[k] = v
    return d


def mkmerge(parts):
    """A dictionary display with ** parts."""
    d = {}
    for p in parts:
        for k, v in ([p] if len(p) == 2 else [(k, p[0][k]) for k in p[0].keys()]):
            setitem(v, d, k)
    return d


def mkset(elts):
    s = set()
    for e in elts:
        set_add(s, e)
    return s


def set_add(s, e):
    e = resolve(e)
    if relevant(s, e):
        if findkey(s, e) is MISSING:
            if type(e) is SymStr:
                core.CUR.any_symkey = True
            set.add(s, e)
    else:
        s.add(e)


# -- hooks ------------------------------------------------------------------------------
def is_(a, b):
    ta, tb = type(a), type(b)
    if ta is SymRef:
        return same_ref(a, b)
    if tb is SymRef:
        return same_ref(b, a)
    if ta is SymBool and (b is True or b is False or tb is SymBool):
        return a == b
    if tb is SymBool and (a is True or a is False):
        return b == a
    return a is b


def is_not(a, b):
    r = is_(a, b)
    return (not r) if type(r) is bool else mkbool(znot(truth(r)))


def in_(a, b):
    tb = type(b)
    if tb is SymRef:
        b = resolve(b)
        tb = type(b)
    if tb in (list, tuple) and (type(a) is SymRef or (core.CUR is not None and any(type(x) is SymRef for x in b))):
        parts = []
        for x in b:
            r = True if x is a else (x == a)
            if r is True:
                return True
            if r is False:
                continue
            if type(r) is not SymBool:
                r = bool(r)
                if r:
                    return True
                continue
            parts.append(r.e)
        return mkbool(zor(parts))
    if tb is dict or tb in (set, frozenset):
        if relevant(b, a):
            return findkey(b, a) is not MISSING
        return a in b
    if tb is str and type(a) is SymStr:
        return SymStr(items_of(b)).__contains__(a)
    if isinstance(b, (type({}.keys()),)) and type(a) is SymStr:
        return any(a == x for x in b)
    return a in b


def not_in(a, b):
    r = in_(a, b)
    return (not r) if type(r) is bool else mkbool(znot(truth(r)))


def getitem(v, k):
    if relevant(v, k):
        return dict_get(v, k)
    if type(v) is str and (sym(k) or (type(k) is slice and any(sym(x) for x in (k.start, k.stop, k.step)))):
        return SymStr(items_of(v))[k]
    return v[k]


def setitem(v, d, k):
    if relevant(d, k):
        dict_set(d, k, v)
    else:
        d[k] = v


def delitem(d, k):
    if relevant(d, k):
        c = findkey(d, k)
        if c is MISSING:
            raise KeyError(k)
        del d[c]
    else:
        del d[k]


IOPS = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv,
        'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'BitOr': operator.ior, 'BitAnd': operator.iand,
        'BitXor': operator.ixor, 'LShift': operator.ilshift, 'RShift': operator.irshift, 'Pow': operator.ipow}


def augitem(d, k, op, v):
    cur = getitem(d, k)
    setitem(mod(cur, v) if op == 'Mod' else IOPS[op](cur, v), d, k)


def guard():
    ex = sys.exc_info()[1]
    if isinstance(ex, EngineSignal):
        raise ex
    if isinstance(ex, (TypeError, AttributeError)) and 'Sym' in str(ex):
        raise Unsupported('operation on a symbolic value: %s' % (ex,))


def setop(op, l, r):
    """-, &, |, ^ of sets (or dictionaries and their views) whose elements may be symbolic."""
    f = SETOPS[op]
    if core.CUR is None or not core.CUR.any_symkey or not isinstance(l, SETLIKE) or not isinstance(r, SETLIKE):
        return f(l, r)
    if isinstance(l, dict) and isinstance(r, dict):
        if op == 'BitOr':
            d = mkdict(l.items())
            for k, v in r.items():
                setitem(v, d, k)
            return d
        return f(l, r)
    out = set()
    for x in l:
        i = findkey(r if isinstance(r, (dict, set, frozenset)) else set(r), x) is not MISSING
        if op == 'BitOr' or (i if op == 'BitAnd' else not i):
            set_add(out, x)
    if op in ('BitOr', 'BitXor'):
        for x in r:
            if op == 'BitOr' or findkey(l if isinstance(l, (dict, set, frozenset)) else set(l), x) is MISSING:
                set_add(out, x)
    return out


SETOPS = {'Sub': operator.sub, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor}
SETLIKE = (set, frozenset, dict, type({}.keys()), type({}.items()))


# -- conversions ------------------------------------------------------------------------
def to_str(x):
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return SymStr((NumAtom('int', x),))
    if t is SymFloat:
        return SymStr((NumAtom('float', x),))
    if t is SymBool:
        return 'True' if x else 'False'
    if t is SymRef:
        return to_str(resolve(x))
    if t is SymBytes:
        raise Unsupported('str() of symbolic bytes')
    if isinstance(x, BaseException) and t.__str__ is BaseException.__str__ and len(x.args) == 1:
        return to_str(x.args[0])
    return str(x)


def to_repr(x):
    t = type(x)
    if t in (SymInt, SymFloat, SymBool):
        return to_str(x)
    if t is SymStr:
        return str_repr(x)
    if t is SymRef:
        return repr(resolve(x))
    return repr(x)


def to_int(x, *a):
    t = type(x)
    if t is SymStr:
        return parse_int(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return 1 if x else 0
    if t is SymFloat:
        if E().decide(z3.Or(z3.fpIsNaN(x.e), z3.fpIsInf(x.e))):
            raise ValueError('cannot convert float to integer')
        return SymInt(z3.ToInt(z3.fpToReal(z3.fpRoundToIntegral(z3.RTZ(), x.e))))
    return int(x, *a)


def to_float(x):
    t = type(x)
    if t is SymStr:
        return parse_float(x)
    if t in (SymInt, SymFloat):
        return sym_float(x)
    if t is SymBool:
        return 1.0 if x else 0.0
    return float(x)


def sx_type(x):
    t = type(x)
    if t is SymStr:
        return str
    if t is SymInt:
        return int
    if t is SymFloat:
        return float
    if t is SymBool:
        return bool
    if t is SymRef:
        return type(resolve(x))
    return t


def havoc_float(why):
    E().note('havoc: %s' % why)
    return SymStr((NumAtom('dec', SymFloat(E().fresh('havoc', z3.Float64()))),))


def fmt_percent(fmt, args):
    if type(fmt) is SymStr:
        raise Unsupported('symbolic % format')
    mapping = args if isinstance(args, dict) else None
    seq = list(args) if type(args) is tuple else [args]
    out, i, n, used = [], 0, len(fmt), 0
    while i < n:
        c = fmt[i]
        if c != '%':
            out.append(ord(c)); i += 1
            continue
        j = i + 1
        key = None
        if j < n and fmt[j] == '(':
            e = fmt.index(')', j)
            key = fmt[j + 1:e]
            j = e + 1
        s = j
        while j < n and fmt[j] in '-+ #0123456789.':
            j += 1
        spec, conv = fmt[s:j], fmt[j]
        i = j + 1
        if conv == '%':
            out.append(37)
            continue
        if key is not None:
            val = getitem(mapping, key)
        else:
            val = seq[used]
            used += 1
        if not sym(val):
            out.extend(map(ord, ('%' + spec + conv) % (val,)))
            continue
        val = resolve(val)
        if conv == 's' and not spec:
            out.extend(items_of(to_str(val)))
        elif conv == 's' and type(val) is SymStr and spec.lstrip('-').replace('.', '').isdigit():
            w, _, prec = spec.lstrip('-').partition('.')
            val = val[:int(prec)] if prec else val
            out.extend(items_of((SymStr(items_of(val)).ljust if spec[0] == '-' else SymStr(items_of(val)).rjust)(int(w or 0))))
        elif conv in 'xX' and type(val) is SymInt and (not spec or spec.isdigit()):
            out.extend(hexfield(val, spec, conv == 'X'))
        elif conv == 'r' and not spec:
            out.extend(items_of(to_repr(val)))
        elif conv in 'di' and type(val) is SymInt and not spec:
            out.extend(items_of(to_str(val)))
        elif conv in 'eEfFgGdi':
            out.extend(havoc_float('%%%s%s' % (spec, conv)).items)
        else:
            raise Unsupported('%% format %r of a symbolic value' % (spec + conv))
    return mkstr(out)


def hexfield(val, spec, upper=False):
    d = hexdigits(val.e, upper)
    return [48 if spec[:1] == '0' else 32] * (int(spec or 0) - len(d)) + d


def mod(l, r):
    if type(l) is str and (sym(r) or (type(r) is tuple and any(sym(x) for x in r)) or
                           (type(r) is dict and any(sym(x) for x in r.values()))):
        return fmt_percent(l, r)
    if type(l) is SymStr:
        raise Unsupported('symbolic % format')
    return l % r


def fmt_value(v, spec):
    if not sym(v):
        return format(v, spec) if type(spec) is str else format(v, str(spec))
    v = resolve(v)
    if spec in ('', 's') or (spec == 'd' and type(v) is SymInt):
        return to_str(v)
    if type(v) is SymInt and type(spec) is str and spec[-1:] in ('x', 'X') and (len(spec) == 1 or spec[:-1].isdigit()):
        return mkstr(hexfield(v, spec[:-1], spec[-1] == 'X'))
    if type(v) in (SymFloat, SymInt):
        return havoc_float('format %r' % (spec,))
    if type(v) is SymStr:
        m = re.match(r'^(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?$', spec, re.S)
        if m:
            if m.group(4):
                v = SymStr(items_of(v[:int(m.group(4))]))
            f, w = m.group(1) or ' ', int(m.group(3) or 0)
            if m.group(2) == '^':
                k = max(0, w - len(v))
                return mkstr((ord(f),) * (k // 2) + v.items + (ord(f),) * (k - k // 2))
            return v.rjust(w, f) if m.group(2) == '>' else v.ljust(w, f)
    raise Unsupported('format spec %r' % (spec,))


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 115:
                v = to_str(v)
            elif conv == 114:
                v = to_repr(v)
            elif conv == 97:
                v = ascii(v)
            out.extend(items_of(fmt_value(v, spec)))
        else:
            out.extend(map(ord, p))
    return mkstr(out)


def str_format(fmt, args, kw):
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.extend(map(ord, lit))
        if field is None:
            continue
        import re
        m = re.match(r'^([^.\[]*)(.*)$', field)
        first, rest = m.group(1), m.group(2)
        if first == '':
            v = args[auto]; auto += 1
        elif first.isdigit():
            v = args[int(first)]
        else:
            v = kw[first]
        for a in re.findall(r'\.(\w+)|\[(\w+)\]', rest):
            v = getattr(v, a[0]) if a[0] else getitem(v, int(a[1]) if a[1].isdigit() else a[1])
        if conv == 's':
            v = to_str(v)
        elif conv == 'r':
            v = to_repr(v)
        out.extend(items_of(fmt_value(v, spec)))
    return mkstr(out)


# -- attribute access by symbolic name ---------------------------------------------------
def attr_name(obj, name):
    """Realise a symbolic attribute name against the names the object has (or None)."""
    its = name.items
    if any(type(i) is NumAtom for i in its):
        return None
    for c in sorted(set(dir(obj))):
        if len(c) != len(its):
            continue
        if name == c:
            return c
    return None


def sx_getattr(obj, name, *dflt):
    if type(name) is SymStr:
        n = attr_name(obj, name)
        if n is None:
            if dflt:
                return dflt[0]
            raise AttributeError('no such attribute')
        name = n
    return getattr(obj, name, *dflt)


def sx_hasattr(obj, name):
    if type(name) is SymStr:
        n = attr_name(obj, name)
        return n is not None
    return hasattr(obj, name)


def sx_setattr(obj, name, v):
    if type(name) is SymStr:
        n = attr_name(obj, name)
        if n is None:
            raise Unsupported('setattr of a new symbolic name')
        name = n
    return setattr(obj, name, v)


# -- calls ------------------------------------------------------------------------------
def _dict_method(d, name, a, k):
    if name == 'get':
        c = findkey(d, a[0])
        return dict.__getitem__(d, c) if c is not MISSING else (a[1] if len(a) > 1 else k.get('default'))
    if name == 'setdefault':
        c = findkey(d, a[0])
        if c is MISSING:
            dict_set(d, a[0], a[1] if len(a) > 1 else None)
            return a[1] if len(a) > 1 else None
        return dict.__getitem__(d, c)
    if name == 'pop':
        c = findkey(d, a[0])
        if c is MISSING:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        return type(d).pop(d, c)
    if name == 'update':
        if a:
            src = a[0].items() if hasattr(a[0], 'items') else a[0]
            for kk, vv in src:
                setitem(vv, d, kk)
        for kk, vv in k.items():
            setitem(vv, d, kk)
        return None
    if name == '__contains__':
        return findkey(d, a[0]) is not MISSING
    if name == '__getitem__':
        return dict_get(d, a[0])
    if name == '__setitem__':
        return dict_set(d, a[0], a[1])
    if name in ('items', 'keys', 'values', 'copy', 'clear', 'popitem'):
        return getattr(d, name)(*a, **k)
    raise Unsupported('dict.%s with symbolic arguments' % name)


def _set_method(s, name, a, k):
    if name == 'add':
        return set_add(s, a[0])
    if name in ('discard', 'remove'):
        c = findkey(s, a[0])
        if c is MISSING:
            if name == 'remove':
                raise KeyError(a[0])
            return None
        return s.remove(c)
    if name == 'update':
        for it in a:
            for x in it:
                set_add(s, x)
        return None
    raise Unsupported('set.%s with symbolic arguments' % name)


def _str_method(s, name, a, k):
    if name == 'format':
        return str_format(s, a, k) if type(s) is str else s.format(*a, **k)
    if name == 'format_map' and type(s) is str:
        return str_format(s, (), a[0])
    if name == 'join':
        return SymStr(items_of(s)).join(a[0])
    r = getattr(SymStr(items_of(s)), name)(*a, **k)
    return r


def _list_method(l, name, a, k):
    if name == 'sort' and k.get('key') is not None:
        f = k['key']
        k = dict(k, key=lambda x: call(f, x))
    return getattr(l, name)(*a, **k)


def _method(obj, name, a, k):
    if isinstance(obj, dict):
        return _dict_method(obj, name, a, k)
    if isinstance(obj, (set, frozenset)):
        return _set_method(obj, name, a, k)
    if type(obj) in (str, SymStr):
        return _str_method(obj, name, a, k)
    if type(obj) in (list, tuple):
        return _list_method(obj, name, a, k)
    return MISSING


STDLIB = set(symre.FUNCS) | {codecs.open}
SAFE = set(map(id, [functools.reduce, isinstance, issubclass, id, iter, next, callable, list, tuple, zip, enumerate, reversed, all,
                    any, object, property, staticmethod, classmethod, super, hash, min, max, sorted, sum, abs,
                    len, slice, round]))


# functions of the library that are run from their own source, instrumented, when an argument is symbolic
TWINS = {'xml.sax.saxutils', 'html', 'urllib.parse', 'textwrap', 'posixpath', 'string'}
LOADED_TWINS = {}


def twin(f):
    if f.__qualname__ != f.__name__:
        return f
    m = sys.modules[f.__module__]
    if f.__module__ not in LOADED_TWINS:
        from . import instrument
        new = types.ModuleType(f.__module__ + ' instrumented')
        new.__dict__.update(__file__=m.__file__, __package__=m.__package__, __name__=f.__module__)
        exec(instrument.compile_instrumented(m.__file__)[0], new.__dict__)
        LOADED_TWINS[f.__module__] = new
    return getattr(LOADED_TWINS[f.__module__], f.__name__)


OPERATORS = {operator.is_: is_, operator.is_not: is_not, operator.contains: lambda c, x: in_(x, c), operator.mod: mod,
             operator.truth: lambda x: True if x else False, operator.not_: lambda x: not x}


def call(f, /, *a, **k):
    t = type(f)
    if t is FT:
        if f.__module__ in TWINS and core.CUR is not None and anysym(a, k) and f.__globals__ is sys.modules[f.__module__].__dict__:
            g = twin(f)
            if g is not f:
                return call(g, *a, **k)
        if f in STDLIB and core.CUR is not None:
            if f in symre.FUNCS:
                if anysym(a, k):
                    return symre.function(f, a, k)
            elif f is codecs.open and core.CUR.open_stub is not None:
                return core.CUR.open_stub(a[0], a[1] if len(a) > 1 else k.get('mode', 'r'))
        return f(*a, **k)
    if t is MT:
        return f(*a, **k)
    if core.CUR is None:
        return f(*a, **k)
    if t is type:
        # a class: conversions need models, user classes run as they are
        if f.__module__ != 'builtins':
            if f is io.StringIO:
                return SymStringIO(*a, **k)
            if f is collections.OrderedDict and a and (core.CUR.any_symkey or anysym(a, k)):
                d = f()
                for kk, vv in (a[0].items() if hasattr(a[0], 'items') else a[0]):
                    setitem(vv, d, kk)
                return d
            if f is collections.Counter and a:
                d = f()
                for kk in a[0]:
                    setitem(dict_get(d, kk) + 1, d, kk)
                return d
            return f(*a, **k)
        if f is str and a and isinstance(a[0], BaseException):
            return to_str(a[0])
        if f is type:
            return sx_type(a[0]) if len(a) == 1 else type(*a, **k)
        if f is map:
            g = a[0]
            return map(lambda *x: call(g, *x), *a[1:])
        if f is filter:
            g = a[0]
            return filter(None if g is None else lambda x: call(g, x), a[1])
        if not anysym(a, k):
            if (f is dict or f is set) and a and core.CUR.any_symkey:
                return mkdict(a[0].items() if hasattr(a[0], 'items') else a[0]) if f is dict and not k else \
                    mkset(a[0]) if f is set else f(*a, **k)
            return f(*a, **k)
        if f is str:
            return to_str(a[0]) if len(a) == 1 and not k else a[0].decode(*a[1:], **k) if type(a[0]) is SymBytes else str(*a, **k)
        if f is int:
            return to_int(*a)
        if f is float:
            return to_float(*a)
        if f is bool:
            return truthy(a[0])
        if f is dict:
            d = mkdict(a[0].items() if hasattr(a[0], 'items') else a[0]) if a else {}
            for kk, vv in k.items():
                setitem(vv, d, kk)
            return d
        if f is set:
            return mkset(a[0])
        if f is frozenset:
            return frozenset(mkset(a[0]))
        if f is bytes and type(a[0]) in (SymStr, SymBytes):
            return a[0].encode(*a[1:], **k) if type(a[0]) is SymStr else a[0]
        if id(f) in SAFE or issubclass(f, BaseException):
            return f(*a, **k)
        raise Unsupported('%s() of symbolic values' % f.__name__)
    if f is builtins.open and core.CUR.open_stub is not None:
        return core.CUR.open_stub(*a, **k)
    if t is CACHE:
        # the cache as a list of calls: arguments are compared as the dictionary of the cache would
        mine = core.CUR.keep_cache.setdefault(id(f), [])
        for aa, kk, r in mine:
            if len(aa) == len(a) and set(kk) == set(k) and all(x is y or x == y for x, y in zip(aa, a)) and all(kk[n] is k[n] or kk[n] == k[n] for n in k):
                return r
        r = call(f.__wrapped__, *a, **k)
        mine.append((a, k, r))
        size = f.cache_parameters()['maxsize']
        if size is not None and len(mine) > size:
            mine.pop(0)
        return r
    if t is functools.partial:
        return call(f.func, *(f.args + a), **dict(f.keywords, **k))
    if isinstance(f, BUILTIN_T):
        s = getattr(f, '__self__', None)
        if type(s) is CACHE and f.__name__ == 'cache_clear':
            core.CUR.keep_cache.pop(id(s), None)
        if type(s) is re.Pattern:
            return symre.method(s, f.__name__, a, k) if anysym(a, k) else f(*a, **k)
        if f is builtins.print and k.get('file') is not None:
            o = k['file']
            txt = SymStr(items_of(k.get('sep') if k.get('sep') is not None else ' ')).join([to_str(x) for x in a])
            o.write(txt + (k.get('end') if k.get('end') is not None else '\n'))
            if k.get('flush'):
                o.flush()
            return None
        if f.__name__ == 'fromkeys' and isinstance(s, type) and issubclass(s, dict):
            d = s()
            for kk in a[0]:
                setitem(a[1] if len(a) > 1 else k.get('value'), d, kk)
            return d
        if s is not None and not isinstance(s, types.ModuleType) and not isinstance(s, type):
            if core.CUR.any_symkey or sym(s) or anysym(a, k) or (type(s) is str and a and isinstance(a[0], types.GeneratorType)):
                if f.__name__ == 'join' and type(s) is str:
                    lst = list(a[0])
                    if not anysym((lst,), {}):
                        return s.join(lst)
                    return SymStr(items_of(s)).join(lst)
                if anysym(a, k) or (isinstance(s, (dict, set)) and core.CUR.any_symkey):
                    r = _method(s, f.__name__, a, k)
                    if r is not MISSING:
                        return r
            return f(*a, **k)
        if t in (types.MethodDescriptorType, types.WrapperDescriptorType) and f.__objclass__ in (str, dict, list, set, tuple, frozenset):
            if f.__objclass__ is str and a and type(a[0]) is not str and type(a[0]) is not SymStr:
                return f(*a, **k)          # TypeError, as CPython raises it
            if anysym(a, k) or (core.CUR.any_symkey and f.__objclass__ in (dict, set)):
                return call(getattr(a[0], f.__name__), *a[1:], **k) if type(a[0]) is not SymStr else \
                    getattr(a[0], f.__name__)(*a[1:], **k)
            return f(*a, **k)
        if not anysym(a, k):
            return f(*a, **k)
        if f is builtins.__import__:
            if sym(a[0]) or (len(a) > 3 and any(sym(x) for x in a[3] or ())):
                raise Unsupported('import of a symbolic name')
            return f(*a, **k)
        if f is id:
            return id(resolve(a[0]))
        if f in OPERATORS:
            return OPERATORS[f](*a)
        if f is getattr:
            return sx_getattr(*a)
        if f is hasattr:
            return sx_hasattr(*a)
        if f is setattr:
            return sx_setattr(*a)
        if f is delattr and type(a[1]) is not SymStr:
            return delattr(*a)
        if f is repr:
            return to_repr(a[0])
        if f is format:
            return fmt_value(a[0], a[1] if len(a) > 1 else '')
        if f is print:
            return None
        if f is ord:
            s = a[0]
            if type(s) is SymStr and len(s) == 1:
                return SymInt(z3.BV2Int(s.items[0]))
        if f is chr and type(a[0]) is SymInt:
            if not E().decide(z3.And(a[0].e >= 0, a[0].e <= 0x10ffff)):
                raise ValueError('chr() arg not in range(0x110000)')
            return mkstr([z3.simplify(z3.Int2BV(a[0].e, 21))])
        if f is hex and type(a[0]) is SymInt:
            return '0x' + mkstr(hexdigits(a[0].e))
        if f is os.fspath and type(a[0]) is SymStr:
            return a[0]
        if f is divmod:
            return a[0] // a[1], a[0] % a[1]
        if f in (math.isnan, math.isinf, math.isfinite) and type(a[0]) is SymFloat:
            n, i = z3.fpIsNaN(a[0].e), z3.fpIsInf(a[0].e)
            return mkbool(n if f is math.isnan else i if f is math.isinf else z3.Not(z3.Or(n, i)))
        if f is sorted and k.get('key') is not None:
            g = k['key']
            return sorted(a[0], key=lambda x: call(g, x), reverse=k.get('reverse', False))
        if id(f) in SAFE:
            return f(*a, **k)
        if getattr(f, '__module__', '') == 'operator' or getattr(f, '__module__', '') == '_operator':
            return f(*a, **k)
        raise Unsupported('builtin %s with symbolic arguments' % getattr(f, '__name__', f))
    return f(*a, **k)


def truthy(x):
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt:
        return mkbool(x.e != 0)
    if t is SymFloat:
        return mkbool(z3.Not(z3.fpIsZero(x.e)))
    return bool(x)
