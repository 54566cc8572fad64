"""What a harness sees. The same harness code runs symbolically (SymH) and natively (NatH, replay)."""
import z3
from . import core
from .core import PathEnd
from .values import (SymBool, SymInt, SymFloat, SymStr, SymRef, NumAtom, E, CH, FP, mkstr, mkbool, truth, items_of,
                     zand, zor, znot, same_ref, resolve, SYM_TYPES, cin)
from . import ops


SEL = z3.BitVecSort(6)


class SymH(object):
    symbolic = True

    def __init__(self, eng, params=None):
        self.eng = eng
        self.count = {}
        self.params = params or {}

    def _name(self, name):
        n = self.count.get(name, 0)
        self.count[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    # -- inputs
    def bool(self, name):
        name = self._name(name)
        v = self.eng.fresh(name, z3.BoolSort())
        self.eng.inputs.append((name, 'bool', v))
        return SymBool(v)

    def flag(self, name):
        return bool(self.bool(name))

    def choice(self, name, n):
        """An int in [0, n): forks."""
        s = self.sel(name, n)
        for k in range(n - 1):
            if self.eng.decide(s == k):
                return k
        return n - 1

    def sel(self, name, n):
        """A symbolic selector in [0, n): no fork."""
        name = self._name(name)
        v = self.eng.fresh(name, SEL)
        self.eng.inputs.append((name, 'bv', v))
        if n == 1:
            self.eng.assume(v == 0)
        else:
            self.eng.assume(z3.ULT(v, n))
        return v

    def pick(self, sel, tab):
        if isinstance(sel, int):
            return tab[sel]
        s = z3.simplify(sel)
        if z3.is_bv_value(s):
            return tab[s.as_long()]
        return SymRef(s, tab)

    def fix(self, sel, n):
        """Make a selector concrete on this path (forks)."""
        if isinstance(sel, int):
            return sel
        for k in range(n - 1):
            if self.eng.decide(sel == k):
                return k
        self.eng.assume(sel == n - 1)
        return n - 1

    def int(self, name):
        name = self._name(name)
        v = self.eng.fresh(name, z3.IntSort())
        self.eng.inputs.append((name, 'int', v))
        return SymInt(v)

    def float(self, name):
        name = self._name(name)
        v = self.eng.fresh(name, FP)
        self.eng.inputs.append((name, 'float', v))
        return SymFloat(v)

    def str(self, name, n, ok=None, no=None, maxcp=0x10ffff, valid=True):
        """A string of exactly n symbolic characters.

        valid: restrict to characters XML 1.0 can carry; ok/no: further restrict / exclude code points.
        """
        name = self._name(name)
        vs = [self.eng.fresh('%s.%d' % (name, i), CH) for i in range(n)]
        self.eng.inputs.append((name, 'str', tuple(vs)))
        for v in vs:
            cs = []
            if maxcp < 0x1fffff:
                cs.append(z3.ULE(v, maxcp))
            if ok is not None:
                cs.append(cin(v, set(map(ord, ok))))
            elif valid:
                cs.append(z3.Or(v == 9, v == 10, v == 13, z3.And(z3.UGE(v, 32), z3.ULE(v, 0xd7ff)),
                                z3.And(z3.UGE(v, 0xe000), z3.ULE(v, 0xfffd)), z3.UGE(v, 0x10000)))
            if no:
                cs.append(z3.Not(cin(v, set(map(ord, no)))))
            for c in cs:
                self.eng.assume(c)
        return mkstr(vs)

    def digit(self, t, i):
        c = items_of(t)[i]
        return c - 48 if isinstance(c, int) else SymInt(z3.BV2Int(c) - 48)

    def number(self, t, typ):
        return ops.to_int(t) if typ == 'int' else ops.to_float(t)

    def numtext(self, v, kind):
        """Text denoting the number v. kind 'int'|'float' (what str() prints) or 'dec' (any spelling)."""
        return SymStr((NumAtom(kind, v),))

    # -- logic over conditions (Python bool, SymBool or z3 term)
    def ite(self, c, a, b):
        c = self.term(c)
        if c is True:
            return a
        if c is False:
            return b
        def t(x):
            return z3.BitVecVal(x, 6) if isinstance(x, int) and not isinstance(x, bool) else x
        a, b = t(a), t(b)
        if isinstance(a, bool):
            a = z3.BoolVal(a)
        if isinstance(b, bool):
            b = z3.BoolVal(b)
        return z3.If(c, a, b)

    def term(self, c):
        if type(c) is SymBool:
            return c.e
        if isinstance(c, bool):
            return c
        if isinstance(c, z3.BoolRef):
            return c
        return bool(c)

    def sel_eq(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return a == b

    def all(self, *cs):
        return zand([self.term(c) for c in cs])

    def any(self, *cs):
        return zor([self.term(c) for c in cs])

    def neg(self, c):
        return znot(self.term(c))

    def iff(self, a, b):
        a, b = self.term(a), self.term(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, bool):
            return b if a else znot(b)
        if isinstance(b, bool):
            return a if b else znot(a)
        return a == b

    def same(self, a, b):
        """Identity."""
        return self.term(ops.is_(a, b))

    def eq(self, a, b):
        """Value equality with equal type; NaN equals NaN."""
        ta, tb = ops.sx_type(a), ops.sx_type(b)
        if ta is not tb:
            return False
        if type(a) in (SymFloat,) or type(b) in (SymFloat,):
            from .values import sym_float
            x, y = sym_float(a).e, sym_float(b).e
            return z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y)))
        if ta is float and a != a and b != b:
            return True
        return self.term(a == b)

    def isnan(self, f):
        return z3.fpIsNaN(f.e)

    def str_of(self, v):
        return ops.to_str(v)

    def assume(self, c):
        self.eng.assume(self.term(c))

    def check(self, c, label):
        self.eng.prove(self.term(c), label)

    def fail(self, label):
        self.eng.prove(False, label)

    def branch(self, c):
        c = self.term(c)
        return c if isinstance(c, bool) else self.eng.decide(c)

    def reach(self, label):
        self.eng.reached[label] = self.eng.reached.get(label, 0) + 1

    def stop(self):
        raise PathEnd()
