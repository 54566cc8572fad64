"""python3-vt selftest/run.py [substring]: the symbolic executor against the interpreter.

For every path the engine finds through a snippet, a model of the path condition gives concrete inputs; the value
the engine computed, evaluated in that model, must be what the uninstrumented snippet yields. The paths must also
cover a sample of inputs: each is compared with the path whose condition it satisfies."""
import os
import random
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx import core, instrument, ops, harness, xmldoc
from symx.values import *
from symx import values
import types
import z3

xmldoc.install()
SRC = os.path.join(HERE, 'selftest', 'snips.py')
instrument.install([os.path.join(HERE, 'selftest')], ops)
sys.path.insert(0, os.path.join(HERE, 'selftest'))
import snips as sym
nat = types.ModuleType('native')
exec(compile(open(SRC).read(), SRC, 'exec'), nat.__dict__)


def lit(m, v, depth=0):
    """The concrete value of v in the model m."""
    if isinstance(v, SymBool) or type(v) is SymBool:
        return z3.is_true(m.eval(v.e, model_completion=True))
    if type(v) is SymInt:
        return m.eval(v.e, model_completion=True).as_long()
    if type(v) is SymFloat:
        return float(core.fp_repr(m.eval(v.e, model_completion=True)))
    if type(v) is SymStr:
        out = []
        for x in v.items:
            if isinstance(x, NumAtom):
                n = lit(m, SymInt(x.num) if x.num.sort() == z3.IntSort() else SymFloat(x.num)) if isinstance(x.num, z3.ExprRef) else lit(m, x.num)
                out.append(str(n))
            elif isinstance(x, int):
                out.append(chr(x))
            else:
                out.append(chr(m.eval(x, model_completion=True).as_long()))
        return ''.join(out)
    if type(v) is SymRef:
        v = v._sx_tab[m.eval(v._sx_e, model_completion=True).as_long()]
    if type(v).__name__ == 'N':
        return 'N%d' % v.n
    if depth < 5:
        if type(v) in (list, tuple):
            return type(v)(lit(m, x, depth + 1) for x in v)
        if isinstance(v, dict):
            return [(lit(m, k, depth + 1), lit(m, x, depth + 1)) for k, x in v.items()]
    if isinstance(v, values.Sym):
        return 'SYM %s' % type(v).__name__
    return v


def norm(v):
    if type(v).__name__ == 'N':
        return 'N%d' % v.n
    if isinstance(v, dict):
        return [(norm(k), norm(x)) for k, x in v.items()]
    if type(v) in (list, tuple):
        return type(v)(norm(x) for x in v)
    if isinstance(v, str):
        return str.__str__(v)
    return v


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if type(a) in (list, tuple) and type(a) is type(b):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


def run(name, budget=20):
    f, g = getattr(sym, name), getattr(nat, name)
    eng = core.Engine(budget_s=budget, max_paths=20000)
    bad, n = [], [0]

    def path():
        h = harness.SymH(eng)
        if name[0] == 's':
            k = h.choice('n', 4)
            args = (h.str('s', k, ok=sym.ALPHA), h.str('t', 1, ok=sym.ALPHA))
        elif name[0] == 'r':
            o = [sym.N(k) for k in range(3)]
            refs = [h.sel(n, 4) for n in 'abcd']
            a, b, c, d = [h.pick(x, o + [None]) for x in refs]
            args = (o, a, b, [c, d])
        else:
            args = (h.int('i'), h.float('x'))
        try:
            r = f(*args)
        except core.EngineSignal:
            raise
        except Exception as ex:
            if isinstance(ex, (TypeError, AttributeError)) and 'Sym' in str(ex):
                raise
            r = type(ex).__name__
        m = eng.feasible_model()
        if m is None:
            return
        if name[0] == 'r':
            o = [nat.N(k) for k in range(3)]
            a, b, c, d = [(o + [None])[m.eval(x, model_completion=True).as_long()] for x in refs]
            conc = [o, a, b, [c, d]]
        else:
            conc = [lit(m, a) for a in args]
        got = lit(m, r)
        try:
            want = norm(g(*conc))
        except Exception as ex:
            want = type(ex).__name__
        n[0] += 1
        if not same(got, want):
            bad.append((conc, got, want))
    eng.explore(path)
    return n[0], bad, eng


def main():
    only = sys.argv[1] if len(sys.argv) > 1 else ''
    names = [n for n in dir(nat) if n[:2] in ('s_', 'n_', 'r_') and only in n]
    tot = wrong = uns = 0
    for n in names:
        t = time.time()
        k, bad, eng = run(n)
        tot += k
        if bad:
            wrong += 1
            print('WRONG %s: %d of %d paths, e.g. %r -> engine %r, interpreter %r' % ((n, len(bad), k) + bad[0]))
        if eng.stats['unsupported'] or eng.cex or not eng.complete:
            uns += 1
            print('open  %s: %s %s %s' % (n, eng.notes, eng.cex[:1], '' if eng.complete else 'incomplete after %d paths, %.0f s' % (k, time.time() - t)))
    print('%d snippets, %d paths compared, %d wrong, %d not followed completely' % (len(names), tot, wrong, uns))
    return 1 if wrong else 0


if __name__ == '__main__':
    sys.exit(main())
