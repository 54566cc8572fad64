"""mutants.py FILE CHECKS OUT [FROM:TO]: small syntactic changes to one file of /repo that its tests accept,
each against the given checks (the first one that reports a violation ends it). Works on scratch copies."""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys

REPO = '/repo'
SWAP = {'rsplit': 'split', 'split': 'rsplit', 'strip': 'lstrip', 'title': 'lower', 'append': 'insert0', 'items': 'items'}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.Eq, ast.IsNot: ast.NotEq}


def logs(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and 'logg' in ast.dump(n.value.func)


def mutations(tree):
    """Yields (line, what, function that changes a copy of the tree at the same position)."""
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if logs(n) or isinstance(n, ast.If) and '__main__' in ast.dump(n.test) or isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            skip.update(map(id, ast.walk(n.body[0])))
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        line = getattr(n, 'lineno', 0)

        def at(f, i=i):
            t = copy.deepcopy(tree)
            m = list(ast.walk(t))[i]
            f(m)
            return t
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if id(s) in skip or isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass)):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Delete, ast.Return)):
                        def dele(m, field=field, k=k):
                            getattr(m, field)[k] = ast.Pass()
                        yield s.lineno, 'delete %s' % ast.unparse(s)[:60], at(dele)
                    if isinstance(s, (ast.Continue, ast.Break)):
                        def sw(m, field=field, k=k, s=s):
                            getattr(m, field)[k] = ast.Break() if isinstance(s, ast.Continue) else ast.Continue()
                        yield s.lineno, 'continue/break', at(sw)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for v in (True, False):
                def c(m, v=v):
                    m.test = ast.Constant(v)
                yield line, '%s -> %s' % (ast.unparse(n.test)[:60], v), at(c)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            def o(m):
                m.ops[0] = CMP[type(m.ops[0])]()
            yield line, 'op of %s' % ast.unparse(n)[:60], at(o)
        if isinstance(n, ast.BoolOp):
            def o(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield line, 'and/or of %s' % ast.unparse(n)[:60], at(o)
            for k in range(len(n.values)):
                def o(m, k=k):
                    del m.values[k]
                if len(n.values) > 1:
                    def o(m, k=k):
                        del m.values[k]
                        if len(m.values) == 1:
                            m.values.append(m.values[0])
                    yield line, 'without %s' % ast.unparse(n.values[k])[:60], at(o)
        if isinstance(n, ast.Constant) and type(n.value) is int:
            for dv in (1, -1):
                def o(m, dv=dv):
                    m.value += dv
                yield line, '%d %+d' % (n.value, dv), at(o)
        if isinstance(n, ast.Constant) and type(n.value) is str and n.value:
            def o(m):
                m.value = m.value[:-1]
            yield line, 'text %r shorter' % n.value[:40], at(o)
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            def o(m):
                m.attr = SWAP[m.attr]
            if SWAP[n.attr] not in ('insert0', 'items'):
                yield line, '%s -> %s' % (n.attr, SWAP[n.attr]), at(o)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def o(m):
                m.op = ast.UAdd()
                m.op = ast.Not()
                m.operand = ast.UnaryOp(ast.Not(), m.operand)
            yield line, 'without not', at(o)
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                def o(m):
                    m.lower = None
                yield line, 'slice without lower', at(o)
            if n.upper is not None:
                def o(m):
                    m.upper = None
                yield line, 'slice without upper', at(o)
        if isinstance(n, ast.Dict) and n.keys:
            def o(m):
                m.keys, m.values = m.keys[:-1], m.values[:-1]
            yield line, 'dict without last', at(o)


def tests(d):
    p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x'], cwd=d, text=True, timeout=60,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONPATH='.', PYTHONDONTWRITEBYTECODE='1'))
    return p.returncode == 0


def main():
    rel, checks, out = sys.argv[1], sys.argv[2].split(','), sys.argv[3]
    lo, hi = map(int, sys.argv[4].split(':')) if len(sys.argv) > 4 else (0, 10 ** 6)
    with open(os.path.join(REPO, rel)) as f:
        src = f.read()
    tree = ast.parse(src)
    seen = {ast.unparse(tree)}
    base = '/tmp/mut_%d' % os.getpid()
    os.makedirs(base)
    d = base + '/repo'
    subprocess.run(['cp', '-a', REPO, d], check=True)
    only = os.environ.get('MUT_LINES')
    res = open(out, 'a')
    for n, (line, what, t) in enumerate(mutations(tree)):
        if not lo <= n < hi:
            continue
        if only and not any(int(a.split('-')[0]) <= line <= int(a.split('-')[1]) for a in only.split(',')):
            continue
        ast.fix_missing_locations(t)
        try:
            text = ast.unparse(t)
        except Exception:
            continue
        if text in seen:
            continue
        seen.add(text)
        with open(os.path.join(d, rel), 'w') as f:
            f.write(text)
        try:
            if not tests(d):
                continue
        except Exception:
            continue
        verdict = 'SURVIVED'
        rcs = []
        for c in checks:
            env = dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick', VERIF_SOON='0',
                       VERIF_BUDGET=os.environ.get('MUT_BUDGET', '200'), VERIF_OUT=base)
            try:
                p = subprocess.run(['python3-vt', 'check.py', c, 'quick'], cwd='/verif', env=env, text=True, timeout=400,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                rcs.append('%s:%d' % (c, p.returncode))
                if 'VIOLATION property=%s' % c in p.stdout and p.returncode == 1:
                    verdict = 'caught by %s' % c
                    break
                if p.returncode == 2 and c == checks[-1]:
                    verdict = 'BROKEN %s' % p.stdout[-200:]
            except subprocess.TimeoutExpired:
                rcs.append(c + ':timeout')
        res.write('%d\tL%d\t%s\t%s\t%s\n' % (n, line, what.replace('\n', ' '), verdict, ' '.join(rcs)))
        res.flush()
    shutil.rmtree(base)


main()
