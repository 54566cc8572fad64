"""Native execution of a harness on concrete inputs (counterexample replay). No solver here."""


class Stop(Exception):
    """native: an assumption does not hold for the replayed input"""


class Violated(Exception):
    pass


class NatH(object):
    symbolic = False
    mode = 'plain'

    def __init__(self, values, params=None):
        self.values = values
        self.count = {}
        self.params = params or {}
        self.used = []

    def _get(self, name, dflt):
        n = self.count.get(name, 0)
        self.count[name] = n + 1
        key = name if n == 0 else '%s#%d' % (name, n)
        v = self.values.get(key, dflt)
        self.used.append((key, v))
        return v

    def bool(self, name): return bool(self._get(name, False))
    flag = bool
    def choice(self, name, n): return min(int(self._get(name, 0)), n - 1)
    def sel(self, name, n): return min(int(self._get(name, 0)), n - 1)
    def pick(self, sel, tab): return tab[sel]
    def fix(self, sel, n): return sel
    def int(self, name): return int(self._get(name, 0))

    def float(self, name):
        v = self._get(name, 0.0)
        return float(v['float']) if isinstance(v, dict) else float(v)

    def str(self, name, n, ok=None, no=None, maxcp=0, valid=True):
        v = self._get(name, None)
        if v is None:
            return (ok or 'a')[0] * n
        return ''.join(chr(c) for c in v['str'])

    def digit(self, t, i): return int(t[i])

    def number(self, t, typ): return int(t) if typ == 'int' else float(t)

    def numtext(self, v, kind):
        if kind == 'int':
            return str(v)
        s = repr(v)
        return s[0] if len(s) == 3 and s.endswith('.0') else s

    def ite(self, c, a, b): return a if c else b
    def term(self, c): return bool(c)
    def sel_eq(self, a, b): return a == b
    def all(self, *cs): return all(cs)
    def any(self, *cs): return any(cs)
    def neg(self, c): return not c
    def iff(self, a, b): return bool(a) == bool(b)
    def same(self, a, b): return a is b

    def eq(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, float) and a != a and b != b:
            return True
        return a == b

    def isnan(self, f): return f != f
    def str_of(self, v): return str(v)

    def assume(self, c):
        if not c:
            raise Stop('assumption')

    def check(self, c, label):
        if not c:
            raise Violated(label)

    def fail(self, label):
        raise Violated(label)

    def branch(self, c): return bool(c)
    def reach(self, label): pass
    def stop(self): raise Stop('stop')
