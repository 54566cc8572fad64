"""Symbolic values: SymBool, SymInt, SymFloat, SymStr, SymRef.

Strings are tuples of items; an item is a code point (int), a symbolic code point (z3 BitVec 21)
or a NumAtom: the printed form of a symbolic number, kept opaque. Lengths are concrete on every
path (the harness forks over them), except for the extent of NumAtoms.
"""
import sys
import z3
from . import core
from .core import Unsupported, PathEnd

CH = z3.BitVecSort(21)
FP = z3.Float64()
RNE = z3.RNE()


def E():
    e = core.CUR
    if e is None:
        raise RuntimeError('symbolic value used outside an exploration')
    return e


def is_sym(x):
    return isinstance_sym(type(x))


def isinstance_sym(t):
    return t in SYM_TYPES


def truth(x):
    """z3 term or Python bool for a value already known to be boolean."""
    if type(x) is SymBool:
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return bool(x)


def mkbool(e):
    if e is True or e is False:
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def zand(parts):
    out = []
    for p in parts:
        if p is False:
            return False
        if p is True:
            continue
        out.append(p)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def zor(parts):
    out = []
    for p in parts:
        if p is True:
            return True
        if p is False:
            continue
        out.append(p)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def znot(p):
    if p is True:
        return False
    if p is False:
        return True
    return z3.Not(p)


class Sym(object):
    __slots__ = ()

    def __str__(self):
        raise Unsupported('native str() of %s' % type(self).__name__)

    def __format__(self, spec):
        raise Unsupported('native format() of %s' % type(self).__name__)

    def __reduce_ex__(self, p):
        raise Unsupported('pickle/copy of %s' % type(self).__name__)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E().decide(self.e)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if o is True or o is False:
            return mkbool(self.e if o else z3.Not(self.e))
        if type(o) is int or type(o) is float:
            return mkbool(self.e) if o == 1 else mkbool(z3.Not(self.e)) if o == 0 else False
        if type(o) in (SymInt, SymFloat):
            return o == bool(self)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(znot(truth(r)))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        return mkbool(zand([self.e, truth(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(zor([self.e, truth(o)]))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, truth(o) if type(o) is SymBool else z3.BoolVal(bool(o))))
    __rxor__ = __xor__

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __sub__(self, o): return int(bool(self)) - o
    def __rsub__(self, o): return o - int(bool(self))
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __neg__(self): return -int(bool(self))
    def __lt__(self, o): return int(bool(self)) < o
    def __le__(self, o): return int(bool(self)) <= o
    def __gt__(self, o): return int(bool(self)) > o
    def __ge__(self, o): return int(bool(self)) >= o

    def __repr__(self):
        return '<SymBool>'


def to_int_term(x):
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    return None


class SymInt(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def _bin(self, o, f, rev=False):
        if type(o) in (float, SymFloat):
            a, b = sym_float(self), sym_float(o)
            return NotImplemented if a is None else ((f(b, a) if rev else f(a, b)))
        t = to_int_term(o)
        if t is None:
            return NotImplemented
        return SymInt(z3.simplify(f(t, self.e) if rev else f(self.e, t)))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    def __neg__(self): return SymInt(-self.e)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.e < 0, -self.e, self.e))

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return SymInt(self.e / o)
        if type(o) is int and o < 0:
            return SymInt((-self.e) / -o)
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        raise Unsupported('SymInt //')

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return SymInt(self.e % o)
        if type(o) is int and o < 0:
            return SymInt(-((-self.e) % -o))
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        raise Unsupported('SymInt %')

    def _cmp(self, o, f, dflt):
        if type(o) in (float, SymFloat):
            return f(sym_float(self), sym_float(o))
        t = to_int_term(o)
        if t is None:
            return dflt
        return mkbool(f(self.e, t))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, False)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b, True)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, NotImplemented)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, NotImplemented)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, NotImplemented)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, NotImplemented)

    def _bits(self, o, f, rev=False):
        """Bitwise operations, for values of at most 32 bits."""
        t = to_int_term(o)
        if t is None:
            return NotImplemented
        for x in (self.e, t):
            if not E().decide(z3.And(x >= 0, x < 1 << 32)):
                raise Unsupported('bitwise operation on a large or negative number')
        a, b = z3.Int2BV(self.e, 64), z3.Int2BV(t, 64)
        return SymInt(z3.BV2Int(f(b, a) if rev else f(a, b)))

    def __and__(self, o): return self._bits(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._bits(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._bits(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __rshift__(self, o):
        if type(o) is not int or o < 0:
            raise Unsupported('shift by a symbolic amount')
        return self // (1 << o)

    def __lshift__(self, o):
        if type(o) is not int or o < 0:
            raise Unsupported('shift by a symbolic amount')
        return self * (1 << o)

    def __divmod__(self, o):
        return self // o, self % o

    def __hash__(self):
        raise Unsupported('hash of SymInt')

    def __bool__(self):
        return E().decide(self.e != 0)

    def __index__(self):
        # realise by forking over a small range, else give up
        for v in range(0, 17):
            if E().decide(self.e == v):
                return v
        raise Unsupported('SymInt used as an index beyond 16')

    def __int__(self):
        raise Unsupported('native int() of SymInt')

    def __float__(self):
        raise Unsupported('native float() of SymInt')

    def __repr__(self):
        return '<SymInt>'


def sym_float(x):
    if type(x) is SymFloat:
        return x
    if type(x) is float:
        return SymFloat(z3.FPVal(x, FP))
    if type(x) is SymInt:
        return SymFloat(z3.fpRealToFP(RNE, z3.ToReal(x.e), FP))
    if isinstance(x, int):
        return SymFloat(z3.FPVal(float(x), FP))
    return None


class SymFloat(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    def _cmp(self, o, f, dflt):
        t = sym_float(o)
        if t is None:
            return dflt
        return mkbool(f(self.e, t.e))

    def __eq__(self, o): return self._cmp(o, z3.fpEQ, False)
    def __ne__(self, o): return self._cmp(o, lambda a, b: z3.Not(z3.fpEQ(a, b)), True)
    def __lt__(self, o): return self._cmp(o, z3.fpLT, NotImplemented)
    def __le__(self, o): return self._cmp(o, z3.fpLEQ, NotImplemented)
    def __gt__(self, o): return self._cmp(o, z3.fpGT, NotImplemented)
    def __ge__(self, o): return self._cmp(o, z3.fpGEQ, NotImplemented)

    def _bin(self, o, f, rev=False):
        t = sym_float(o)
        if t is None:
            return NotImplemented
        a, b = (t.e, self.e) if rev else (self.e, t.e)
        return SymFloat(f(RNE, a, b))

    def __add__(self, o): return self._bin(o, z3.fpAdd)
    def __radd__(self, o): return self._bin(o, z3.fpAdd, True)
    def __sub__(self, o): return self._bin(o, z3.fpSub)
    def __rsub__(self, o): return self._bin(o, z3.fpSub, True)
    def __mul__(self, o): return self._bin(o, z3.fpMul)
    def __rmul__(self, o): return self._bin(o, z3.fpMul, True)

    def __truediv__(self, o):
        t = sym_float(o)
        if t is None:
            return NotImplemented
        if E().decide(z3.fpIsZero(t.e)):
            raise ZeroDivisionError('float division by zero')
        return SymFloat(z3.fpDiv(RNE, self.e, t.e))

    def __neg__(self): return SymFloat(z3.fpNeg(self.e))
    def __abs__(self): return SymFloat(z3.fpAbs(self.e))
    def __pos__(self): return self

    def is_integer(self):
        return mkbool(z3.And(z3.Not(z3.fpIsNaN(self.e)), z3.Not(z3.fpIsInf(self.e)),
                             z3.fpEQ(z3.fpRoundToIntegral(RNE, self.e), self.e)))

    def __round__(self, n=None):
        E().note('havoc: round(float)')
        if n is None:
            return SymInt(E().fresh('round', z3.IntSort()))
        return SymFloat(E().fresh('round', FP))

    def __hash__(self):
        raise Unsupported('hash of SymFloat')

    def __bool__(self):
        return E().decide(z3.Not(z3.fpIsZero(self.e)))

    def __int__(self):
        raise Unsupported('native int() of SymFloat')

    def __float__(self):
        raise Unsupported('native float() of SymFloat')

    def __repr__(self):
        return '<SymFloat>'


# ----------------------------------------------------------------------------------------
class NumAtom(object):
    """The text of a number. `num` is the number it denotes; text itself stays opaque.

    kind 'int': the decimal form str(int) yields; kind 'float': a form float() parses back to
    `num` and int() rejects (what repr(float) yields); kind 'dec': an arbitrary valid spelling of
    `num` accepted by float(). Code that looks at the text itself (compares it, keys a table by it,
    tries int() first) sees one spelling of each number: see spelled().
    """
    __slots__ = ('kind', 'num')
    CHARSETS = {'int': frozenset(map(ord, '-0123456789')),
                'float': frozenset(map(ord, '+-.0123456789einfa')),
                'dec': frozenset(map(ord, '+-.0123456789eE'))}

    def __init__(self, kind, num):
        self.kind, self.num = kind, num

    def charset(self):
        return self.CHARSETS[self.kind]

    def same(self, o):
        """z3/Python condition: both atoms print identically."""
        if self is o or (self.kind == o.kind and self.num.e.eq(o.num.e)):
            return True
        if self.kind == o.kind:
            return self.num.e == o.num.e        # structural: same datum incl. NaN, -0.0
        if self.kind == 'dec' and o.kind == 'int':
            return zor([zand([self.num.e == z3.FPVal(float(c), FP), o.num.e == c]) for c in range(10)])
        if self.kind == 'int' and o.kind == 'dec':
            return o.same(self)
        return None


def citem(x):
    """normalise an item"""
    if isinstance(x, int) or type(x) is NumAtom:
        return x
    s = z3.simplify(x)
    if z3.is_bv_value(s):
        return s.as_long()
    return s


def ceq(a, b):
    """Condition that two items are the same character."""
    ta, tb = type(a) is NumAtom, type(b) is NumAtom
    if ta or tb:
        if ta and tb:
            r = a.same(b)
            if r is None:
                raise Unsupported('comparison of number texts of different provenance')
            return r
        at, ch = (a, b) if ta else (b, a)
        cs = at.charset()
        if isinstance(ch, int):
            if ch not in cs:
                return False
        elif not E().decide(zor([ch == c for c in cs])):
            return False
        raise Unsupported('character comparison inside a number text')
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        return a == z3.BitVecVal(b, 21)
    return a == b


def cin(a, codes):
    """Condition that item `a` is one of the given code points."""
    if isinstance(a, int):
        return a in codes
    if type(a) is NumAtom:
        if not (a.charset() & set(codes)):
            return False
        raise Unsupported('character class test inside a number text')
    return zor([a == z3.BitVecVal(c, 21) for c in sorted(codes)])


def crange(a, lo, hi):
    if isinstance(a, int):
        return lo <= a <= hi
    if type(a) is NumAtom:
        raise Unsupported('range test inside a number text')
    return z3.And(z3.UGE(a, lo), z3.ULE(a, hi))


WS = frozenset([9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) +
               [0x2028, 0x2029, 0x202f, 0x205f, 0x3000])


RARE = (0xe9, 0xdf, 0x85, 0xa0, 0x2028, 0x20ac, 0x1f600)


def asc(a):
    """The item, if it is ASCII on this path; else the one of a few characters it is (alphabets are small)."""
    if isinstance(a, int) or type(a) is NumAtom or E().decide(z3.ULT(a, 128)):
        return a
    for c in RARE:
        if E().decide(a == z3.BitVecVal(c, 21)):
            return c
    raise Unsupported('case operation on a non-ASCII symbolic character')


def is_upper(a): return crange(a, 65, 90)
def is_lower(a): return crange(a, 97, 122)


def any_upper(a): return chr(a).isupper() or chr(a).istitle() if isinstance(a, int) else is_upper(a)
def any_lower(a): return chr(a).islower() if isinstance(a, int) else is_lower(a)


def c_lower(a):
    if isinstance(a, int):
        return [ord(c) for c in chr(a).lower()]
    if type(a) is NumAtom:
        if a.kind == 'int' or a.kind == 'float':
            return [a]
        raise Unsupported('lower() of a number text')
    b = asc(a)
    return c_lower(b) if isinstance(b, int) else [citem(z3.If(is_upper(a), a + 32, a))]


def c_upper(a):
    if isinstance(a, int):
        return [ord(c) for c in chr(a).upper()]
    if type(a) is NumAtom:
        if a.kind == 'int':
            return [a]
        raise Unsupported('upper() of a number text')
    b = asc(a)
    return c_upper(b) if isinstance(b, int) else [citem(z3.If(is_lower(a), a - 32, a))]


def items_of(x):
    """Items of a str or SymStr; None for anything else."""
    if type(x) is SymStr:
        return x.items
    if isinstance(x, str):
        return tuple(map(ord, x))
    return None


def mkstr(items):
    items = tuple(items)
    for i in items:
        if not isinstance(i, int):
            return SymStr(items)
    return ''.join(map(chr, items))


class SymStr(Sym):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    @property
    def __class__(self):
        return str

    # -- basics
    def _noatoms(self, what):
        for i in self.items:
            if type(i) is NumAtom:
                raise Unsupported('%s of a text containing a number text' % what)

    def __len__(self):
        self._noatoms('len')
        return len(self.items)

    def __bool__(self):
        return len(self.items) > 0

    def __hash__(self):
        # only the hooks know how to look for a symbolic key
        f = sys._getframe(1)
        if not f.f_globals.get('__name__', '').startswith('symx'):
            raise Unsupported('hash of symbolic text in %s' % f.f_code.co_name)
        return 0x5ca1ab1e

    def __repr__(self):
        return '<SymStr %s>' % ''.join(chr(i) if isinstance(i, int) else '#' if type(i) is NumAtom else '?' for i in self.items)

    def _eqterm(self, o):
        b = items_of(o)
        if b is None:
            return False
        a = self.items
        na = sum(type(i) is NumAtom for i in a)
        nb = sum(type(i) is NumAtom for i in b)
        if na == 0 and nb == 0:
            if len(a) != len(b):
                return False
            # cheap refutation first
            for x, y in zip(a, b):
                if isinstance(x, int) and isinstance(y, int) and x != y:
                    return False
            return zand([ceq(x, y) for x, y in zip(a, b)])
        # strip common concrete prefix/suffix
        a, b = list(a), list(b)
        conds = []
        def is_atom(i): return type(i) is NumAtom
        while a and b and not is_atom(a[0]) and not is_atom(b[0]):
            conds.append(ceq(a.pop(0), b.pop(0)))
            if conds[-1] is False:
                return False
        while a and b and not is_atom(a[-1]) and not is_atom(b[-1]):
            conds.append(ceq(a.pop(), b.pop()))
            if conds[-1] is False:
                return False
        if not a and not b:
            return zand(conds)
        if not a or not b:
            rest = a or b
            return False if rest else zand(conds)     # remaining items have length >= 1
        if len(a) == len(b) == 1 and is_atom(a[0]) and is_atom(b[0]):
            s = a[0].same(b[0])
            if s is None:
                raise Unsupported('comparison of number texts of different provenance')
            return zand(conds + [s])
        # an atom against text: refute by charset
        for p, q in ((a, b), (b, a)):
            allowed = set()
            for i in p:
                if is_atom(i):
                    allowed |= i.charset()
                elif isinstance(i, int):
                    allowed.add(i)
                else:
                    allowed = None
                    break
            if allowed is not None and any(isinstance(i, int) and i not in allowed for i in q):
                return False
        if len(a) == 1 and is_atom(a[0]) and all(isinstance(i, int) for i in b):
            txt = ''.join(map(chr, b))
            return zand(conds + [num_text_is(a[0], txt)])
        if len(b) == 1 and is_atom(b[0]) and all(isinstance(i, int) for i in a):
            txt = ''.join(map(chr, a))
            return zand(conds + [num_text_is(b[0], txt)])
        raise Unsupported('comparison of a number text with text')

    def __eq__(self, o):
        t = self._eqterm(o)
        return t if t is True or t is False else mkbool(t)

    def __ne__(self, o):
        return mkbool(znot(self._eqterm(o)))

    def _lt(self, o, strict=True):
        b = items_of(o)
        if b is None:
            return NotImplemented
        a = self.items
        for x, y in zip(a, b):
            if E().decide(truth(ceq(x, y))) if not isinstance(ceq(x, y), bool) else ceq(x, y):
                continue
            if isinstance(x, int) and isinstance(y, int):
                return x < y
            if type(x) is NumAtom or type(y) is NumAtom:
                raise Unsupported('ordering of number texts')
            xx = z3.BitVecVal(x, 21) if isinstance(x, int) else x
            yy = z3.BitVecVal(y, 21) if isinstance(y, int) else y
            return mkbool(z3.ULT(xx, yy))
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o): return self._lt(o)
    def __le__(self, o): return self._lt(o, False)

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else mkbool(znot(truth(r)))

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else mkbool(znot(truth(r)))

    def __add__(self, o):
        b = items_of(o)
        if b is None:
            return NotImplemented
        return mkstr(self.items + b)

    def __radd__(self, o):
        b = items_of(o)
        if b is None:
            return NotImplemented
        return mkstr(b + self.items)

    def __mul__(self, n):
        return mkstr(self.items * n)
    __rmul__ = __mul__

    def __iter__(self):
        self._noatoms('iteration')
        for i in self.items:
            yield mkstr((i,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            if all(type(i) is not NumAtom for i in self.items):
                return mkstr(self.items[k])
            st, en = k.start or 0, k.stop
            if k.step in (None, 1) and st >= 0 and all(type(i) is not NumAtom for i in self.items[:st]):
                if en is None:
                    return mkstr(self.items[st:])
                if en >= 0 and all(type(i) is not NumAtom for i in self.items[:en]) and en <= len(self.items):
                    return mkstr(self.items[st:en])
                if en < 0 and all(type(i) is not NumAtom for i in self.items[en:]):
                    return mkstr(self.items[st:en])
            raise Unsupported('slice through a number text')
        k = k.__index__()
        seg = self.items[:k + 1] if k >= 0 else self.items[k:]
        if any(type(i) is NumAtom for i in seg):
            raise Unsupported('index into a number text')
        if not -len(self.items) <= k < len(self.items):
            raise IndexError('string index out of range')
        return mkstr((self.items[k],))

    # -- searching
    def _match(self, i, pat):
        if i + len(pat) > len(self.items):
            return False
        cs = []
        for x, y in zip(self.items[i:i + len(pat)], pat):
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return False
                continue
            if type(x) is NumAtom and isinstance(y, int):
                if y not in x.charset():
                    return False
                raise Unsupported('search inside a number text')
            cs.append(ceq(x, y))
            if cs[-1] is False:
                return False
        c = zand(cs)
        return c if isinstance(c, bool) else E().decide(c)

    def _pat(self, p):
        b = items_of(p)
        if b is None:
            raise TypeError('must be str, not %s' % type(p).__name__)
        return b

    def find(self, p, start=None, end=None):
        p = self._pat(p)
        n = len(self.items)
        st, en, _ = slice(start, end).indices(n)
        for i in range(st, en - len(p) + 1):
            if self._match(i, p):
                if any(type(x) is NumAtom for x in self.items[:i]):
                    raise Unsupported('position after a number text')
                return i
        return -1

    def rfind(self, p, start=None, end=None):
        p = self._pat(p)
        st, en, _ = slice(start, end).indices(len(self.items))
        for i in range(en - len(p), st - 1, -1):
            if self._match(i, p):
                if any(type(x) is NumAtom for x in self.items[:i]):
                    raise Unsupported('position after a number text')
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def __contains__(self, p):
        p = self._pat(p)
        return any(self._match(i, p) for i in range(0, len(self.items) - len(p) + 1))

    def count(self, p):
        p = self._pat(p)
        if not p:
            return len(self) + 1
        i = n = 0
        while i + len(p) <= len(self.items):
            if self._match(i, p):
                n += 1
                i += len(p)
            else:
                i += 1
        return n

    def startswith(self, p, start=0, end=None):
        s = self if start in (0, None) and end is None else self[start:end]
        if not isinstance(s, SymStr) and type(s) is not SymStr:
            return SymStr(items_of(s)).startswith(p)
        if isinstance(p, tuple):
            return any(s.startswith(q) for q in p)
        return s._match(0, self._pat(p))

    def endswith(self, p, start=0, end=None):
        s = self if start in (0, None) and end is None else SymStr(items_of(self[start:end]))
        if isinstance(p, tuple):
            return any(s.endswith(q) for q in p)
        p = self._pat(p)
        if len(p) > len(s.items):
            return False
        return s._match(len(s.items) - len(p), p)

    def replace(self, old, new, count=-1):
        p, q = self._pat(old), self._pat(new)
        if not p:
            self._noatoms('replace of the empty string')
            n = len(self.items) + 1 if count < 0 else min(count, len(self.items) + 1)
            out = []
            for k, a in enumerate(self.items + (None,)):
                out.extend(q if k < n else ())
                out.extend(() if a is None else (a,))
            return mkstr(out)
        out, i = [], 0
        while i < len(self.items):
            if count != 0 and self._match(i, p):
                out.extend(q)
                i += len(p)
                count -= 1
            else:
                out.append(self.items[i])
                i += 1
        return mkstr(out)

    def _isws(self, i):
        if type(i) is NumAtom:
            return False
        c = cin(i, WS)
        return c if isinstance(c, bool) else E().decide(c)

    def _inset(self, i, codes):
        if codes is None:
            return self._isws(i)
        if all(isinstance(c, int) for c in codes):
            c = cin(i, set(codes))
        else:
            c = zor([ceq(i, k) for k in codes])
        return c if isinstance(c, bool) else E().decide(c)

    def lstrip(self, chars=None):
        codes = None if chars is None else self._pat(chars)
        k = 0
        while k < len(self.items) and self._inset(self.items[k], codes):
            k += 1
        return mkstr(self.items[k:])

    def rstrip(self, chars=None):
        codes = None if chars is None else self._pat(chars)
        k = len(self.items)
        while k > 0 and self._inset(self.items[k - 1], codes):
            k -= 1
        return mkstr(self.items[:k])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return SymStr(items_of(r)).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur = [], []
            its = list(self.items)
            i = 0
            while i < len(its):
                if self._isws(its[i]):
                    if cur:
                        out.append(mkstr(cur)); cur = []
                elif maxsplit >= 0 and len(out) >= maxsplit and not cur:
                    out.append(mkstr(SymStr(its[i:]).rstrip().items if type(SymStr(its[i:]).rstrip()) is SymStr else items_of(SymStr(its[i:]).rstrip())))
                    return out
                else:
                    cur.append(its[i])
                i += 1
            if cur:
                out.append(mkstr(cur))
            return out
        p = self._pat(sep)
        if not p:
            raise ValueError('empty separator')
        out, cur, i = [], [], 0
        while i < len(self.items):
            if (maxsplit < 0 or len(out) < maxsplit) and self._match(i, p):
                out.append(mkstr(cur)); cur = []
                i += len(p)
            else:
                cur.append(self.items[i])
                i += 1
        out.append(mkstr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self.split()
            raise Unsupported('rsplit(None, n)')
        p = self._pat(sep)
        out, end, i = [], len(self.items), len(self.items) - len(p)
        while i >= 0:
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(p) <= end and self._match(i, p):
                out.append(mkstr(self.items[i + len(p):end]))
                end = i
                i -= len(p)
            else:
                i -= 1
        out.append(mkstr(self.items[:end]))
        return out[::-1]

    def partition(self, sep):
        p = self._pat(sep)
        for i in range(0, len(self.items) - len(p) + 1):
            if self._match(i, p):
                return mkstr(self.items[:i]), sep, mkstr(self.items[i + len(p):])
        return mkstr(self.items), '', ''

    def rpartition(self, sep):
        p = self._pat(sep)
        for i in range(len(self.items) - len(p), -1, -1):
            if self._match(i, p):
                return mkstr(self.items[:i]), sep, mkstr(self.items[i + len(p):])
        return '', '', mkstr(self.items)

    def splitlines(self, keepends=False):
        out, cur, i = [], [], 0
        its = self.items
        while i < len(its):
            c = its[i]
            t = False if type(c) is NumAtom else cin(c, {10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029})
            if t if isinstance(t, bool) else E().decide(t):
                e = [c]
                cr = ceq(c, 13)
                if (cr if isinstance(cr, bool) else E().decide(cr)) and i + 1 < len(its):
                    lf = False if type(its[i + 1]) is NumAtom else ceq(its[i + 1], 10)
                    if lf if isinstance(lf, bool) else E().decide(lf):
                        e.append(its[i + 1]); i += 1
                out.append(mkstr(cur + (e if keepends else []))); cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def removeprefix(self, p):
        return mkstr(self.items[len(self._pat(p)):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mkstr(self.items[:len(self.items) - len(self._pat(p))]) if self._pat(p) and self.endswith(p) else self

    def join(self, it):
        out = []
        for n, s in enumerate(it):
            if n:
                out.extend(self.items)
            b = items_of(s)
            if b is None:
                raise TypeError('sequence item %d: expected str instance' % n)
            out.extend(b)
        return mkstr(out)

    # -- case
    def _map(self, f):
        out = []
        for i in self.items:
            out.extend(f(i))
        return mkstr(out)

    def lower(self): return self._map(c_lower)
    casefold = lower
    def upper(self): return self._map(c_upper)

    def swapcase(self):
        def f(a):
            if isinstance(a, int):
                return [ord(c) for c in chr(a).swapcase()]
            if type(a) is NumAtom:
                raise Unsupported('swapcase of a number text')
            b = asc(a)
            return f(b) if isinstance(b, int) else [citem(z3.If(is_upper(a), a + 32, z3.If(is_lower(a), a - 32, a)))]
        return self._map(f)

    def _letter(self, a):
        if isinstance(a, int):
            return chr(a).isalpha() if a < 128 else (chr(a).islower() or chr(a).isupper() or chr(a).istitle())
        if type(a) is NumAtom:
            raise Unsupported('title() of a number text')
        return z3.Or(is_upper(a), is_lower(a))

    def title(self):
        out, prev = [], False
        for a in self.items:
            a = asc(a)
            if type(a) is NumAtom:
                if a.kind == 'int':
                    out.append(a); prev = False
                    continue
                raise Unsupported('title() of a number text')
            if isinstance(a, int) and isinstance(prev, bool):
                out.extend(ord(c) for c in (chr(a).lower() if prev else chr(a).title()))
                prev = self._letter(a)
                continue
            if isinstance(a, int):
                if a >= 128:
                    prev = E().decide(prev)
                    out.extend(ord(c) for c in (chr(a).lower() if prev else chr(a).title()))
                    prev = self._letter(a)
                    continue
                lo, up = ord(chr(a).lower()), ord(chr(a).upper())
                out.append(lo if lo == up else citem(z3.If(prev, z3.BitVecVal(lo, 21), z3.BitVecVal(up, 21))))
                prev = self._letter(a)
                continue
            lo = z3.If(is_upper(a), a + 32, a)
            up = z3.If(is_lower(a), a - 32, a)
            if isinstance(prev, bool):
                out.append(citem(lo if prev else up))
            else:
                out.append(citem(z3.If(prev, lo, up)))
            prev = self._letter(a)
        return mkstr(out)

    def capitalize(self):
        out = []
        for n, a in enumerate(self.items):
            out.extend(c_upper(a) if n == 0 else c_lower(a))
        return mkstr(out)

    def _all(self, f, name):
        if not self.items:
            return False
        cs = []
        for a in map(asc, self.items):
            if isinstance(a, int):
                cs.append(getattr(chr(a), name)())
            elif type(a) is NumAtom:
                raise Unsupported('%s of a number text' % name)
            else:
                cs.append(f(a))
        return mkbool(zand(cs))

    def isspace(self):
        if not self.items:
            return False
        return mkbool(zand([False if type(a) is NumAtom else cin(a, WS) for a in self.items]))

    def isdigit(self): return self._all(lambda a: crange(a, 48, 57), 'isdigit')
    def isdecimal(self): return self._all(lambda a: crange(a, 48, 57), 'isdecimal')
    def isnumeric(self): return self._all(lambda a: crange(a, 48, 57), 'isnumeric')
    def isalpha(self): return self._all(lambda a: z3.Or(is_upper(a), is_lower(a)), 'isalpha')

    def isalnum(self):
        return self._all(lambda a: z3.Or(crange(a, 48, 57), is_upper(a), is_lower(a)), 'isalnum')

    def _cased(self, good, bad, name):
        self._noatoms(name)
        its = [asc(a) for a in self.items]
        return mkbool(zand([zor([good(a) for a in its])] + [znot(bad(a)) for a in its]))

    def isupper(self): return self._cased(any_upper, any_lower, 'isupper')
    def islower(self): return self._cased(any_lower, any_upper, 'islower')

    def isascii(self):
        return mkbool(zand([True if type(a) is NumAtom else (a < 128 if isinstance(a, int) else z3.ULT(a, 128)) for a in self.items]))

    def translate(self, table):
        out = []
        for a in self.items:
            if isinstance(a, int):
                out.extend(map(ord, chr(a).translate(table)))
                continue
            if not isinstance(table, dict):
                raise Unsupported('translate with a non-dict table')
            hit = False
            for k, v in table.items():
                c = ceq(a, k)
                if c if isinstance(c, bool) else E().decide(c):
                    if v is not None:
                        out.extend([v] if isinstance(v, int) else items_of(v))
                    hit = True
                    break
            if not hit:
                out.append(a)
        return mkstr(out)

    def expandtabs(self, *a):
        raise Unsupported('expandtabs')

    def encode(self, encoding='utf-8', errors='strict'):
        enc = codec(encoding)
        if enc is None or errors not in ('strict', 'ignore', 'replace', 'xmlcharrefreplace'):
            raise Unsupported('encode of symbolic text as %s, %s' % (encoding, errors))
        out = []
        for a in self.items:
            if type(a) is NumAtom:
                out.append(a)
                continue
            if enc == 'utf-8':
                bad = crange(a, 0xd800, 0xdfff)
            else:
                bad = a >= 128 if isinstance(a, int) else z3.UGE(a, z3.BitVecVal(128 if enc == 'ascii' else 256, 21))
            if not (bad if isinstance(bad, bool) else E().decide(bad)):
                out.append(a)
            elif errors == 'strict':
                raise UnicodeEncodeError(str(encoding), '?', 0, 1, 'character of a symbolic text')
            elif errors == 'replace':
                out.append(63)
            elif errors == 'xmlcharrefreplace':
                num = [ord(c) for c in str(a)] if isinstance(a, int) else [NumAtom('int', SymInt(z3.BV2Int(a)))]
                out.extend([38, 35] + num + [59])
        return SymBytes(SymStr(out), enc)

    def format(self, *a, **k):
        raise Unsupported('symbolic format string')
    format_map = format

    def zfill(self, n):
        k = n - len(self)
        if k <= 0:
            return self
        sign = len(self) and cin(self.items[0], {43, 45})
        sign = bool(sign) if isinstance(sign, (bool, int)) else E().decide(sign)
        return mkstr(self.items[:sign] + (48,) * k + self.items[sign:])

    def ljust(self, n, c=' '):
        return mkstr(self.items + (ord(c),) * max(0, n - len(self)))

    def rjust(self, n, c=' '):
        return mkstr((ord(c),) * max(0, n - len(self)) + self.items)

    def center(self, n, c=' '):
        k = max(0, n - len(self))
        left = k // 2 + (k & n & 1)
        return mkstr((ord(c),) * left + self.items + (ord(c),) * (k - left))

    def isidentifier(self):
        if not self.items or not self._all(lambda a: z3.Or(crange(a, 48, 57), is_upper(a), is_lower(a), a == 95), 'isidentifier'):
            return False
        a = self.items[0]
        return not chr(a).isdigit() if isinstance(a, int) else mkbool(z3.Not(crange(a, 48, 57)))

    def isprintable(self):
        return mkbool(zand([True if type(a) is NumAtom else chr(a).isprintable() if isinstance(a, int) else crange(a, 32, 126)
                            for a in map(asc, self.items)]))


def str_repr(s):
    def has(c):
        return any(r if isinstance(r, bool) else E().decide(r) for r in (ceq(a, c) for a in s.items if type(a) is not NumAtom))
    quote = 34 if has(39) and not has(34) else 39
    out = [quote]
    for a in s.items:
        if type(a) is NumAtom:
            out.append(a)
            continue
        a = asc(a)
        for c, t in ((92, [92, 92]), (10, [92, 110]), (13, [92, 114]), (9, [92, 116]), (quote, [92, quote])):
            r = ceq(a, c)
            if r if isinstance(r, bool) else E().decide(r):
                out.extend(t)
                break
        else:
            if isinstance(a, int):
                out.extend(map(ord, repr(chr(a))[1:-1] if a not in (34, 39) else chr(a)))
            elif E().decide(crange(a, 32, 126)):
                out.append(a)
            else:
                d = hexdigits(z3.BV2Int(a))
                out.extend([92, 120] + [48] * (2 - len(d)) + d)
    return mkstr(out + [quote])


def codec(name):
    n = str(name).lower().replace('_', '-')
    return {'utf-8': 'utf-8', 'utf8': 'utf-8', 'ascii': 'ascii', 'us-ascii': 'ascii', 'latin-1': 'latin-1',
            'iso-8859-1': 'latin-1', 'latin1': 'latin-1'}.get(n)


class SymBytes(Sym):
    """A symbolic text encoded in `enc`: it can be decoded, joined, measured and compared."""
    __slots__ = ('text', 'enc')

    def __init__(self, text, enc):
        self.text, self.enc = text, enc

    @property
    def __class__(self):
        return bytes

    def decode(self, encoding='utf-8', errors='strict'):
        enc = codec(encoding)
        if enc == self.enc:
            return mkstr(self.text.items)
        if enc is not None and all(type(a) is NumAtom or (a < 128 if isinstance(a, int) else E().decide(z3.ULT(a, 128))) for a in self.text.items):
            return mkstr(self.text.items)
        raise Unsupported('decode of symbolic bytes as %s' % (encoding,))

    def __len__(self):
        n = 0
        for a in self.text.items:
            if type(a) is NumAtom:
                raise Unsupported('len of a number text')
            if self.enc != 'utf-8':
                n += 1
            elif isinstance(a, int):
                n += len(chr(a).encode('utf-8'))
            else:
                n += next(k for k, top in ((1, 0x80), (2, 0x800), (3, 0x10000), (4, 0x200000))
                          if E().decide(z3.ULE(a, z3.BitVecVal(top - 1, 21))))
        return n

    def __bool__(self):
        return len(self.text.items) > 0

    def _other(self, o):
        if type(o) is SymBytes:
            if o.enc != self.enc:
                raise Unsupported('bytes of two encodings')
            return o.text.items
        if isinstance(o, (bytes, bytearray)):
            return tuple(map(ord, bytes(o).decode(self.enc)))
        return None

    def __add__(self, o):
        b = self._other(o)
        return NotImplemented if b is None else SymBytes(SymStr(self.text.items + b), self.enc)

    def __radd__(self, o):
        b = self._other(o)
        return NotImplemented if b is None else SymBytes(SymStr(b + self.text.items), self.enc)

    def __eq__(self, o):
        b = self._other(o)
        return False if b is None else self.text == SymStr(b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(znot(truth(r)))

    def __hash__(self):
        raise Unsupported('hash of symbolic bytes')

    def __iter__(self):
        raise Unsupported('iteration over symbolic bytes')

    def __getattr__(self, name):
        raise Unsupported('bytes.%s of symbolic bytes' % name)

    def __repr__(self):
        return '<SymBytes>'


def num_text_is(atom, txt):
    """Condition that the atom's printed form is exactly txt."""
    try:
        if atom.kind == 'int':
            v = int(txt)
            return atom.num.e == v if str(v) == txt else False
        if atom.kind == 'float':
            v = float(txt)
            return atom.num.e == z3.FPVal(v, FP) if repr(v) == txt else False
        v = float(txt)
        return atom.num.e == z3.FPVal(v, FP) if spelled(v) == txt else False
    except ValueError:
        return False


def spelled(v):
    """The spelling of a 'dec' atom, once the code looks at it: digits have no decimal point."""
    s = repr(v)
    return s[0] if len(s) == 3 and s.endswith('.0') else s


def parse_int(s):
    s = SymStr(items_of(s)).strip()
    its = items_of(s)
    if len(its) == 1 and type(its[0]) is NumAtom:
        a = its[0]
        if a.kind == 'int':
            return SymInt(a.num.e)
        if a.kind == 'float':
            raise ValueError('invalid literal for int()')
        for c in range(10):
            if E().decide(a.num.e == z3.FPVal(float(c), FP)):
                return c
        raise ValueError('invalid literal for int()')
    if any(type(i) is NumAtom for i in its):
        raise Unsupported('int() of mixed number text')
    if type(s) is str:
        return int(s)
    neg, k = False, 0
    if its:
        m = cin(its[0], {45})
        if m if isinstance(m, bool) else E().decide(m):
            neg, k = True, 1
        else:
            m = cin(its[0], {43})
            if m if isinstance(m, bool) else E().decide(m):
                k = 1
    if k >= len(its):
        raise ValueError('invalid literal for int()')
    val = z3.IntVal(0)
    lastdigit = False
    for a in its[k:]:
        a = asc(a)
        if isinstance(a, int) and a >= 128:
            if chr(a).isdecimal():
                raise Unsupported('int() of non-ASCII digits')
            raise ValueError('invalid literal for int()')
        d = crange(a, 48, 57)
        if d if isinstance(d, bool) else E().decide(d):
            t = z3.IntVal(a - 48) if isinstance(a, int) else z3.BV2Int(a) - 48
            val = val * 10 + t
            lastdigit = True
            continue
        u = cin(a, {95})
        if (u if isinstance(u, bool) else E().decide(u)) and lastdigit:
            lastdigit = False
            continue
        raise ValueError('invalid literal for int()')
    if not lastdigit:
        raise ValueError('invalid literal for int()')
    return SymInt(z3.simplify(-val if neg else val))


def parse_float(s):
    s = SymStr(items_of(s)).strip()
    its = items_of(s)
    if len(its) == 1 and type(its[0]) is NumAtom:
        a = its[0]
        return sym_float(a.num)
    if type(s) is str:
        return float(s)
    if not any(type(i) is NumAtom for i in its):
        # forks until the text is concrete, or shown not to be a number
        its = list(map(asc, its))
        for a in its:
            if not isinstance(a, int):
                if not E().decide(cin(a, NUMCHARS)):
                    raise ValueError('could not convert string to float')
        if len(its) <= 3:
            return float(''.join(chr(a) if isinstance(a, int) else chr(spell(a)) for a in its))
    raise Unsupported('float() of symbolic text')


NUMCHARS = frozenset(map(ord, '0123456789+-._eEinfatyINFATY'))


def spell(a):
    """The character, by forking over the ones a number can have."""
    for c in sorted(NUMCHARS):
        if E().decide(a == z3.BitVecVal(c, 21)):
            return c
    raise Unsupported('character of a number')


def hexdigits(e, upper=False):
    """Items of the hexadecimal digits of a non-negative number below 2**24 (forks over their number)."""
    if not E().decide(z3.And(e >= 0, e < 1 << 24)):
        raise Unsupported('hexadecimal digits of a large or negative number')
    n = next(k for k in range(1, 7) if k == 6 or E().decide(e < 1 << (4 * k)))
    b = z3.Int2BV(e, 24)
    out = []
    for k in reversed(range(n)):
        d = z3.ZeroExt(17, z3.Extract(4 * k + 3, 4 * k, b))
        out.append(citem(z3.If(z3.ULT(d, 10), d + 48, d + (55 if upper else 87))))
    return out


# ----------------------------------------------------------------------------------------
class SymRef(Sym):
    """A reference to one of a few objects (or None): identity decided by the solver."""
    __slots__ = ('_sx_e', '_sx_tab', '_sx_name')

    def __init__(self, e, tab):
        object.__setattr__(self, '_sx_e', e)
        object.__setattr__(self, '_sx_tab', tab)

    @property
    def __class__(self):
        return type(resolve(self))

    def __getattr__(self, name):
        return getattr(resolve(self), name)

    def __setattr__(self, name, v):
        setattr(resolve(self), name, v)

    def __delattr__(self, name):
        delattr(resolve(self), name)

    def __eq__(self, o):
        if custom_eq(self._sx_tab) or (type(o) is not SymRef and custom_eq([o])):
            return resolve(self) == (resolve(o) if type(o) is SymRef else o)
        return same_ref(self, o)

    def __ne__(self, o):
        if custom_eq(self._sx_tab) or (type(o) is not SymRef and custom_eq([o])):
            return resolve(self) != (resolve(o) if type(o) is SymRef else o)
        r = same_ref(self, o)
        return mkbool(znot(truth(r)))

    def __bool__(self):
        return bool(resolve(self))

    def __hash__(self):
        return hash(resolve(self))

    def __iter__(self):
        return iter(resolve(self))

    def __len__(self):
        return len(resolve(self))

    def __repr__(self):
        return '<SymRef>'


def custom_eq(objs):
    for o in objs:
        t = type(o)
        if t.__eq__ is not object.__eq__ and o is not None:
            return True
    return False


def same_ref(a, o):
    """Identity condition between a SymRef and anything."""
    if type(o) is SymRef:
        if a._sx_tab is o._sx_tab:
            tab = a._sx_tab
            if len(set(map(id, tab))) == len(tab):
                return mkbool(a._sx_e == o._sx_e)
        return resolve(a) is resolve(o)
    hits = [a._sx_e == k for k, c in enumerate(a._sx_tab) if c is o]
    return mkbool(zor(hits))


def resolve(r):
    if type(r) is not SymRef:
        return r
    eng = E()
    key = (r._sx_e.get_id(), id(r._sx_tab))
    if key in eng.resolved:
        return eng.resolved[key]
    tab = r._sx_tab
    for k, c in enumerate(tab):
        if k == len(tab) - 1 or eng.decide(r._sx_e == k):
            eng.resolved[key] = c
            eng.keep.append(r._sx_e)
            eng.keep.append(tab)
            return c


SYM_TYPES = frozenset([SymBool, SymInt, SymFloat, SymStr, SymRef, SymBytes])
