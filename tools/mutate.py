"""Mutation study of the comparer: applies small changes to the reference, one
at a time, and reports how many the comparison finds, leaves undecided, or
calls equal.   mutate.py [-n COUNT] [-s SEED] [-m MODULE-SUBSTRING] [-v]
"""
import argparse
import ast
import copy
import os
import random
import sys
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)

from va.project import Project, Module          # noqa: E402
from va.compare import Comparer, describe       # noqa: E402

REF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'ref')
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
ARI = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv}


def is_log(n):
    s = ast.unparse(n)
    return s.startswith(('logging.', 'print(', 'warnings.'))


def sites(tree):
    """(operator, path, extra) for every possible mutation in function bodies."""
    out = []

    def visit(n, path, fn):
        if isinstance(n, (ast.FunctionDef,)):
            fn = n
        if fn is not None:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                return
            if isinstance(n, ast.Raise):
                out.append(('dropraise', path, None))
                return
            if isinstance(n, ast.Call) and is_log(n):
                return
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not is_log(n.value):
                out.append(('drop', path, None))
            if isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
                out.append(('drop', path, None))
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                out.append(('dropname', path, None))
            if isinstance(n, ast.AugAssign):
                out.append(('drop', path, None))
                out.append(('plainassign', path, None))
            if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
                out.append(('cmp', path, None))
            if isinstance(n, ast.BinOp) and type(n.op) in ARI and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                out.append(('arith', path, None))
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool) or isinstance(n.value, (int, float)):
                    out.append(('const', path, None))
                elif isinstance(n.value, str) and n.value:
                    out.append(('str', path, None))
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                out.append(('negate', path, None))
                if isinstance(n, ast.If) and n.orelse:
                    out.append(('dropelse', path, None))
                if isinstance(n, ast.If) and not any(isinstance(x, ast.Raise) for x in n.body):
                    out.append(('always', path, None))
            if isinstance(n, ast.BoolOp):
                out.append(('boolop', path, None))
                for i in range(len(n.values)):
                    out.append(('dropoperand', path, i))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                out.append(('unary', path, None))
            if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                out.append(('swapargs', path, None))
            if isinstance(n, ast.Call) and n.keywords:
                for i, k in enumerate(n.keywords):
                    if k.arg not in ('help', 'metavar', 'name', 'description', None):
                        out.append(('dropkw', path, i))
            if isinstance(n, (ast.Break, ast.Continue)):
                out.append(('loopctl', path, None))
            if isinstance(n, ast.Slice) and (n.lower is not None or n.upper is not None):
                out.append(('slice', path, None))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                others = sorted({x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self'} - {n.attr})
                if others:
                    out.append(('attr', path, others))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                others = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args})
                others = [o for o in others if o != n.id and o != 'self']
                if others and n.id in {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args}:
                    out.append(('name', path, others))
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) > 1:
                out.append(('swapret', path, None))
            if isinstance(n, ast.keyword) and n.arg in ('help', 'metavar', 'name', 'description'):
                return
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        if f in ('bases', 'decorator_list'):
                            continue
                        visit(x, path + ((f, i),), fn)
                        if fn is not None and isinstance(x, ast.stmt) and i + 1 < len(v) and f == 'body':
                            if not isinstance(x, (ast.Return, ast.Raise, ast.FunctionDef, ast.Continue, ast.Break)) and \
                                    not isinstance(v[i + 1], (ast.Return, ast.Raise, ast.FunctionDef)) and \
                                    not (isinstance(x, ast.Expr) and (isinstance(x.value, ast.Constant) or is_log(x.value))):
                                out.append(('swapstmt', path, (f, i)))
            elif isinstance(v, ast.AST):
                if fn is n and f == 'args':
                    for i, d in enumerate(v.defaults):
                        visit(d, path + (('args', None), ('defaults', i)), fn)
                    continue
                visit(v, path + ((f, None),), fn)
    visit(tree, (), None)
    return out


def get(tree, path):
    n = tree
    for f, i in path:
        n = getattr(n, f)
        if i is not None:
            n = n[i]
    return n


def put(tree, path, new):
    n = get(tree, path[:-1])
    f, i = path[-1]
    if i is None:
        setattr(n, f, new)
    else:
        getattr(n, f)[i] = new


def apply(tree, site, rng):
    op, path, extra = site
    n = get(tree, path)
    line = getattr(n, 'lineno', 0)
    if op in ('drop', 'dropraise', 'dropname'):
        put(tree, path, ast.copy_location(ast.Pass(), n))
    elif op == 'plainassign':
        put(tree, path, ast.copy_location(ast.Assign([n.target], n.value), n))
    elif op == 'cmp':
        n.ops[0] = CMP[type(n.ops[0])]()
    elif op == 'arith':
        n.op = ARI[type(n.op)]()
    elif op == 'const':
        v = n.value
        put(tree, path, ast.copy_location(ast.Constant((not v) if isinstance(v, bool) else v + 1), n))
    elif op == 'str':
        put(tree, path, ast.copy_location(ast.Constant(n.value + 'x' if rng.random() < .5 else n.value[1:]), n))
    elif op == 'negate':
        n.test = ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n)
    elif op == 'dropelse':
        n.orelse = []
    elif op == 'always':
        n.test = ast.copy_location(ast.Constant(True), n)
    elif op == 'boolop':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif op == 'dropoperand':
        del n.values[extra]
        if len(n.values) == 1:
            put(tree, path, n.values[0])
    elif op == 'unary':
        put(tree, path, n.operand)
    elif op == 'swapargs':
        i = rng.randrange(len(n.args) - 1)
        if ast.dump(n.args[i]) == ast.dump(n.args[i + 1]):
            return None
        n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
    elif op == 'dropkw':
        del n.keywords[extra]
    elif op == 'loopctl':
        put(tree, path, ast.copy_location(ast.Pass() if rng.random() < .5 else (ast.Break() if isinstance(n, ast.Continue) else ast.Continue()), n))
    elif op == 'slice':
        if n.lower is not None and (n.upper is None or rng.random() < .5):
            n.lower = None
        else:
            n.upper = None
    elif op == 'attr':
        n.attr = rng.choice(extra)
    elif op == 'name':
        n.id = rng.choice(extra)
    elif op == 'swapret':
        n.value.elts[0], n.value.elts[1] = n.value.elts[1], n.value.elts[0]
    elif op == 'swapstmt':
        f, i = extra
        b = getattr(n, f)
        line = b[i].lineno
        b[i], b[i + 1] = b[i + 1], b[i]
    return line


def run(job):
    name, k, seed = job
    rng = random.Random(seed)
    spec = SPEC
    m = spec.modules[name]
    tree = ast.parse(m.text)
    ss = sites(tree)
    site = ss[k]
    line = apply(tree, site, rng)
    if line is None:
        return None
    ast.fix_missing_locations(tree)
    text = ast.unparse(tree)
    # position-preserving copy for reports
    code = Project(REF, overrides={name: text})
    c = Comparer(spec, code)
    found, und, det = [], [], []
    for key in sorted(c.sfun):
        if not key.startswith(name + ':'):
            continue
        r = c.compare(key)
        if r.status in ('differs', 'missing'):
            found.append(key)
        elif r.status == 'undecided':
            und.append((key, r.note or (r.diffs[0].why if r.diffs else '')))
    src = m.text.splitlines()[line - 1].strip() if line else ''
    return site[0], name, line, src, found, und


SPEC = None


def init():
    global SPEC
    SPEC = Project(REF)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=400)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('-m', default='')
    ap.add_argument('-o', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    init()
    jobs = []
    for name, m in sorted(SPEC.modules.items()):
        if a.m in name:
            ss = sites(ast.parse(m.text))
            for k, s in enumerate(ss):
                if not a.o or s[0] == a.o:
                    jobs.append((name, k, a.s * 1000003 + k))
    print('%d possible mutations' % len(jobs))
    random.Random(a.s).shuffle(jobs)
    jobs = jobs[:a.n]
    stat = {}
    with ProcessPoolExecutor(7, initializer=init) as ex:
        for r in ex.map(run, jobs, chunksize=4):
            if r is None:
                continue
            op, name, line, src, found, und = r
            kind = 'found' if found else 'undecided' if und else 'equal'
            stat.setdefault(op, {}).setdefault(kind, 0)
            stat[op][kind] += 1
            if kind != 'found' or a.v:
                print(kind.upper(), op, name, line, src[:110], [w for _, w in und][:1])
    tot = {}
    for op in sorted(stat):
        print('%-12s %s' % (op, stat[op]))
        for k, v in stat[op].items():
            tot[k] = tot.get(k, 0) + v
    print('total', tot)


if __name__ == '__main__':
    main()
