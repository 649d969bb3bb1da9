"""Behaviour-preserving rewritings of a source tree, to test that the checks
stay quiet (development tool; no registered check uses it).

usage: refactor.py SRC DST RULE [RULE...]
"""

import ast
import copy
import os
import shutil
import sys


def fix(n):
    return ast.fix_missing_locations(n)


class Base(ast.NodeTransformer):
    def __init__(self):
        self.count = 0
        self.n = 0

    def fresh(self, s='tmp'):
        self.n += 1
        return '_%s%d' % (s, self.n)


def func_locals(fn):
    out = set()
    params = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
    if fn.args.vararg:
        params.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        params.add(fn.args.kwarg.arg)
    glob = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            for a in n.args.args:
                glob.add(a.arg)
            if isinstance(n, ast.FunctionDef):
                glob.add(n.name)
        if isinstance(n, ast.ExceptHandler) and n.name:
            glob.add(n.name)
    return out - params - glob


class rename(Base):
    """Renames local variables."""

    def visit_FunctionDef(self, fn):
        loc = func_locals(fn)
        self.count += len(loc)
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + '_v'
        return fn


class invert(Base):
    """if c: A else: B  ->  if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        self.count += 1
        if n.orelse:
            return ast.copy_location(ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body), n)
        return ast.copy_location(ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Pass()], n.body), n)


class swapcmp(Base):
    """a < b -> b > a; a == b -> not (a != b)"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1:
            return n
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        o = type(n.ops[0])
        if o in m:
            self.count += 1
            return ast.Compare(n.comparators[0], [m[o]()], [n.left])
        neg = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        if o in neg:
            self.count += 1
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [neg[o]()], n.comparators))
        return n


class Blocks(Base):
    """Rewrites statement lists."""

    def visit(self, node):
        self.generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, f, self.block(b, node))
        return node

    def block(self, b, node):
        out = []
        for s in b:
            r = self.stmt(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def stmt(self, s):
        return s


class tempret(Blocks):
    """return E -> t = E; return t;  x = f(a, b) -> t = a; x = f(t, b)"""

    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            t = self.fresh()
            self.count += 1
            return [ast.Assign([ast.Name(t, ast.Store())], s.value), ast.Return(ast.Name(t, ast.Load()))]
        if isinstance(s, (ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and s.value.args and \
                not isinstance(s.value.args[0], (ast.Name, ast.Constant, ast.Starred)) and \
                not (isinstance(s.value.func, ast.Name) and s.value.func.id == 'super'):
            t = self.fresh()
            self.count += 1
            a = s.value.args[0]
            s.value.args[0] = ast.Name(t, ast.Load())
            return [ast.Assign([ast.Name(t, ast.Store())], a), s]
        return s


class tempcond(Blocks):
    """if c: -> flag = c; if flag:"""

    def stmt(self, s):
        if isinstance(s, ast.If):
            t = self.fresh('flag')
            self.count += 1
            c = s.test
            s.test = ast.Name(t, ast.Load())
            return [ast.Assign([ast.Name(t, ast.Store())], c), s]
        return s


class tempall(Blocks):
    """Every nested call / binary operation of a simple statement into a variable."""

    def stmt(self, s):
        if not isinstance(s, (ast.Assign, ast.AugAssign, ast.Return)) or s.value is None:
            return s
        pre = []
        me = self

        class H(ast.NodeTransformer):
            def visit_Lambda(self, n):
                return n

            def visit_IfExp(self, n):
                return n

            def visit_BoolOp(self, n):
                return n

            def visit_ListComp(self, n):
                return n

            visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

            def visit_BinOp(self, n):
                self.generic_visit(n)
                t = me.fresh()
                pre.append(ast.Assign([ast.Name(t, ast.Store())], n))
                return ast.Name(t, ast.Load())

            def visit_Subscript(self, n):
                if isinstance(n.ctx, ast.Load):
                    return self.generic_visit(n) or n
                return n
        if isinstance(s.value, (ast.BinOp, ast.Call)):
            v = s.value
            if isinstance(v, ast.BinOp):
                v.left = H().visit(v.left)
                v.right = H().visit(v.right)
            else:
                v.args = [H().visit(a) for a in v.args]
            self.count += len(pre)
        return pre + [s]


class noaug(Blocks):
    """x += e -> x = x + e for numbers-like targets"""

    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Name, ast.Attribute)):
            self.count += 1
            load = copy.deepcopy(s.target)
            for n in ast.walk(load):
                if hasattr(n, 'ctx'):
                    n.ctx = ast.Load()
            return ast.Assign([s.target], ast.BinOp(load, s.op, s.value))
        return s


class comploop(Blocks):
    """x = [e for v in it if c] -> loop with append"""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and \
                len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            g = s.value.generators[0]
            name = s.targets[0].id
            if any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(s.value)):
                return s
            self.count += 1
            app = ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'append', ast.Load()), [s.value.elt], []))
            body = [app]
            for c in g.ifs:
                body = [ast.If(c, body, [])]
            return [ast.Assign(s.targets, ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
        return s


class loopcomp(Blocks):
    """x = []; for v in it: x.append(e) -> x = [e for v in it]"""

    def block(self, b, node):
        out = []
        i = 0
        while i < len(b):
            s = b[i]
            if i + 1 < len(b) and isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and \
                    len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(b[i + 1], ast.For):
                f = b[i + 1]
                if len(f.body) == 1 and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Call) and \
                        isinstance(f.body[0].value.func, ast.Attribute) and f.body[0].value.func.attr == 'append' and \
                        isinstance(f.body[0].value.func.value, ast.Name) and f.body[0].value.func.value.id == s.targets[0].id:
                    self.count += 1
                    out.append(ast.Assign(s.targets, ast.ListComp(f.body[0].value.args[0],
                                                                  [ast.comprehension(f.target, f.iter, [], 0)])))
                    i += 2
                    continue
            out.append(s)
            i += 1
        return out


class indexloop(Blocks):
    """for x in xs -> for i in range(len(xs)): x = xs[i] (names and attributes only)"""

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, (ast.Attribute,)) and not s.orelse:
            self.count += 1
            i = self.fresh('i')
            s.body.insert(0, ast.Assign([s.target], ast.Subscript(s.iter, ast.Name(i, ast.Load()), ast.Load())))
            s.target = ast.Name(i, ast.Store())
            s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [copy.deepcopy(s.iter)], [])], [])
        return s


class enumloop(Blocks):
    """for i, x in enumerate(xs) -> for i in range(len(xs)): x = xs[i]; zip -> index"""

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and not s.orelse:
            if s.iter.func.id == 'enumerate' and len(s.iter.args) == 1 and not s.iter.keywords and isinstance(s.target, ast.Tuple) and \
                    isinstance(s.iter.args[0], (ast.Name, ast.Attribute)):
                self.count += 1
                xs = s.iter.args[0]
                s.body.insert(0, ast.Assign([s.target.elts[1]], ast.Subscript(xs, ast.Name(s.target.elts[0].id, ast.Load()), ast.Load())))
                s.target = s.target.elts[0]
                s.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [copy.deepcopy(xs)], [])], [])
            elif s.iter.func.id == 'range' and len(s.iter.args) == 1 and isinstance(s.target, ast.Name):
                # range(n) -> while
                if any(isinstance(n, (ast.Continue, ast.Break)) for n in ast.walk(s)):
                    return s
                self.count += 1
                i = s.target.id
                body = s.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))]
                return [ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                        ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [s.iter.args[0]]), body, [])]
        return s


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class nestelse(Blocks):
    """if c: return A; rest -> if c: return A else: rest"""

    def block(self, b, node):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and i + 1 < len(b):
                self.count += 1
                s.orelse = b[i + 1:]
                return b[:i + 1]
        return b


class unelse(Blocks):
    """if c: return A else: B -> if c: return A; B"""

    def block(self, b, node):
        out = []
        for s in b:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                self.count += 1
                out.extend(s.orelse)
                s.orelse = []
        return out


class ternary(Blocks):
    """x = a if c else b -> if statement, and back"""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            self.count += 1
            return ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            self.count += 1
            return [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]
        if isinstance(s, ast.If) and len(s.body) == 1 == len(s.orelse) and isinstance(s.body[0], ast.Assign) and \
                isinstance(s.orelse[0], ast.Assign) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
            self.count += 1
            return ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
        return s


class splitand(Blocks):
    """if a and b: X -> if a: if b: X"""

    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            self.count += 1
            body = s.body
            for v in reversed(s.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
            self.count += 1
            return ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, [])
        return s


class contin(Blocks):
    """if c: continue; rest -> if not c: rest; and the reverse"""

    def visit_For(self, n):
        return n

    def stmt(self, s):
        if isinstance(s, (ast.For, ast.While)):
            b = s.body
            for i, x in enumerate(b):
                if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and isinstance(x.body[0], ast.Continue) and i + 1 < len(b):
                    self.count += 1
                    s.body = b[:i] + [ast.If(ast.UnaryOp(ast.Not(), x.test), b[i + 1:], [])]
                    return s
            if len(b) and isinstance(b[-1], ast.If) and not b[-1].orelse and len(b[-1].body) > 1:
                self.count += 1
                x = b[-1]
                s.body = b[:-1] + [ast.If(ast.UnaryOp(ast.Not(), x.test), [ast.Continue()], [])] + x.body
        return s


class reorder(Blocks):
    """Swaps adjacent assignments that are independent."""

    @staticmethod
    def rw(s):
        r = {ast.dump(n) for n in ast.walk(s.value) if isinstance(n, (ast.Name, ast.Attribute))}
        names = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
        w = set()
        for t in s.targets:
            if isinstance(t, ast.Name):
                w.add(t.id)
            elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                w.add(t.value.id + '.' + t.attr)
            else:
                return None
        reads = set(names)
        for n in ast.walk(s.value):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                reads.add(n.value.id + '.' + n.attr)
        pure = not any(isinstance(n, ast.Call) and (
            not isinstance(n.func, ast.Attribute) or isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' or
            n.func.attr in ('readline', 'pop', 'uniform', 'multinomial', 'read')) for n in ast.walk(s.value))
        return reads, w, pure

    def block(self, b, node):
        b = list(b)
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if isinstance(x, ast.Assign) and isinstance(y, ast.Assign):
                p, q = self.rw(x), self.rw(y)
                if p and q and p[2] and q[2] and not (p[0] & q[1]) and not (p[1] & q[0]) and not (p[1] & q[1]):
                    b[i], b[i + 1] = y, x
                    self.count += 1
                    i += 2
                    continue
            i += 1
        return b


class fstring(Base):
    """'..{}..'.format(a) -> f'..{a}..'"""

    def visit_Call(self, n):
        self.generic_visit(n)
        import string
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and \
                isinstance(n.func.value.value, str) and not n.keywords:
            vals = []
            args = list(n.args)
            k = 0
            for lit, field, spec, conv in string.Formatter().parse(n.func.value.value):
                if lit:
                    vals.append(ast.Constant(lit))
                if field is None:
                    continue
                if field == '':
                    a = args[k]
                    k += 1
                elif field.isdigit():
                    a = args[int(field)]
                else:
                    return n
                vals.append(ast.FormattedValue(a, -1, ast.JoinedStr([ast.Constant(spec)]) if spec else None))
            self.count += 1
            return ast.JoinedStr(vals)
        return n


class selflocal(Base):
    """x = self._attr at the top of the method, for attributes never stored"""

    def visit_FunctionDef(self, fn):
        if not fn.args.args or fn.args.args[0].arg != 'self' or fn.name == '__init__':
            return fn
        stored, loads = set(), {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                if isinstance(n.ctx, ast.Load):
                    loads.setdefault(n.attr, []).append(n)
                else:
                    stored.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                stored.add(n.func.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super':
                return fn
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name)
               and n.func.value.id == 'self' for n in ast.walk(fn)):
            return fn
        # only attributes used unconditionally somewhere: use properties-safe ones (private)
        pick = [a for a in loads if a.startswith('_') and a not in stored]
        if not pick:
            return fn
        self.count += len(pick)

        class R(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in pick:
                    return ast.Name('loc' + n.attr, ast.Load())
                return n
        body = [R().visit(s) for s in fn.body]
        pre = [ast.Assign([ast.Name('loc' + a, ast.Store())], ast.Attribute(ast.Name('self', ast.Load()), a, ast.Load())) for a in pick]
        k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
        fn.body = body[:k] + pre + body[k:]
        return fn


class extract(Base):
    """Extracts the tail half of each function body into a helper."""

    def __init__(self, where='tail'):
        Base.__init__(self)
        self.where = where

    def visit_Module(self, m):
        out = []
        for s in m.body:
            if isinstance(s, ast.FunctionDef):
                h = self.split(s, None)
                if h:
                    out.append(h)
                out.append(s)
            elif isinstance(s, ast.ClassDef):
                self.klass(s)
                out.append(s)
            else:
                out.append(s)
        m.body = out
        return m

    def klass(self, c):
        out = []
        for s in c.body:
            if isinstance(s, ast.ClassDef):
                self.klass(s)
            if isinstance(s, ast.FunctionDef):
                h = self.split(s, c)
                if h:
                    out.append(h)
            out.append(s)
        c.body = out

    def split(self, fn, cls):
        if fn.decorator_list or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.FunctionDef)) and n is not fn for n in ast.walk(fn)):
            return None
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'super' for n in ast.walk(fn)):
            return None
        b = fn.body
        k = 1 if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        n = len(b) - k
        if n < 3:
            return None
        if self.where == 'tail':
            i, j = k + n // 2, len(b)
        else:
            i, j = k + n // 3, k + 2 * n // 3 + 1
        part = b[i:j]
        has_ret = any(isinstance(x, ast.Return) for s in part for x in ast.walk(s))
        if has_ret and self.where != 'tail':
            return None
        loc = func_locals(fn) | {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        before = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        if fn.args.vararg or fn.args.kwarg:
            return None
        for s in b[:i]:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    before.add(x.id)
        used = {x.id for s in part for x in ast.walk(s) if isinstance(x, ast.Name)}
        me = fn.args.args[0].arg if cls is not None and fn.args.args else None
        params = sorted((used & before) - {me})
        stored = {x.id for s in part for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        after = {x.id for s in b[j:] for x in ast.walk(s) if isinstance(x, ast.Name)}
        outs = sorted(stored & after)
        self.count += 1
        name = '_extracted_%s_%d' % (fn.name.strip('_'), self.count)
        args = ([ast.arg(me)] if me else []) + [ast.arg(p) for p in params]
        body = list(part)
        if self.where != 'tail' and outs:
            body.append(ast.Return(ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load())))
        helper = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[], defaults=[]),
                                 body=body, decorator_list=[], type_params=[])
        f = ast.Attribute(ast.Name(me, ast.Load()), name, ast.Load()) if me else ast.Name(name, ast.Load())
        call = ast.Call(f, [ast.Name(p, ast.Load()) for p in params], [])
        if self.where == 'tail':
            fn.body = b[:i] + [ast.Return(call)]
        elif outs:
            tgt = ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store())
            fn.body = b[:i] + [ast.Assign([tgt], call)] + b[j:]
        else:
            fn.body = b[:i] + [ast.Expr(call)] + b[j:]
        return helper


class extractmid(extract):
    """Extracts the middle third into a helper that returns what it assigns."""

    def __init__(self):
        extract.__init__(self, 'mid')


class extractbody(Base):
    """Extracts loop bodies (without break/continue/return) into helpers, when
    they assign no variable used elsewhere."""

    def visit_ClassDef(self, c):
        new = []
        for fn in list(c.body):
            if isinstance(fn, ast.ClassDef):
                self.visit_ClassDef(fn)
            if not isinstance(fn, ast.FunctionDef) or fn.decorator_list or not fn.args.args or fn.args.vararg or fn.args.kwarg:
                continue
            for loop in [n for n in ast.walk(fn) if isinstance(n, ast.For)]:
                if any(isinstance(n, (ast.Break, ast.Continue, ast.Return, ast.Yield, ast.Lambda, ast.FunctionDef)) for s in loop.body for n in ast.walk(s)):
                    continue
                if any(isinstance(n, ast.Name) and n.id == 'super' for n in ast.walk(fn)):
                    continue
                stored = {n.id for s in loop.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                inside = {id(n) for s in loop.body for n in ast.walk(s)}
                outside = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and id(n) not in inside}
                if stored & outside:
                    continue
                loc = func_locals(fn) | {a.arg for a in fn.args.args}
                used = {n.id for s in loop.body for n in ast.walk(s) if isinstance(n, ast.Name)}
                me = fn.args.args[0].arg
                params = sorted((used & loc) - stored - {me})
                self.count += 1
                name = '_each_%d' % self.count
                h = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(me)] + [ast.arg(p) for p in params],
                                                                  kwonlyargs=[], kw_defaults=[], defaults=[]),
                                    body=loop.body, decorator_list=[], type_params=[])
                loop.body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(me, ast.Load()), name, ast.Load()), [ast.Name(p, ast.Load()) for p in params], []))]
                new.append(h)
        c.body = c.body + new
        return c


class consts(Base):
    """Numeric literals into module constants."""

    def visit_Module(self, m):
        table = {}
        me = self

        class C(ast.NodeTransformer):
            def visit_FunctionDef(self, fn):
                fn.body = [self.visit(s) for s in fn.body]
                return fn

            def visit_JoinedStr(self, n):
                return n

            def visit_Constant(self, n):
                if isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and n.value not in (0, 1):
                    me.count += 1
                    k = '_CONST_%s' % str(n.value).replace('.', '_').replace('-', 'm').replace('+', '')
                    table[k] = n.value
                    return ast.Name(k, ast.Load())
                return n
        out = []
        for s in m.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                s = C().visit(s)
            out.append(s)
        i = 0
        for j, s in enumerate(out):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                i = j + 1
        m.body = out[:i] + [ast.Assign([ast.Name(k, ast.Store())], ast.Constant(v)) for k, v in table.items()] + out[i:]
        return m


class inlinetemp(Blocks):
    """t = E; use(t) once in the next statement -> use(E)"""

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        cnt = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name):
                cnt.setdefault(n.id, []).append(type(n.ctx).__name__)
        self.once = {k for k, v in cnt.items() if sorted(v) == ['Load', 'Store']}
        return self.rewrite(fn)

    def rewrite(self, fn):
        me = self

        def blk(b):
            out = []
            i = 0
            b = list(b)
            while i < len(b):
                s = b[i]
                for f in ('body', 'orelse', 'finalbody'):
                    x = getattr(s, f, None)
                    if isinstance(x, list) and x and isinstance(x[0], ast.stmt):
                        setattr(s, f, blk(x))
                if i + 1 < len(b) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                        and s.targets[0].id in me.once and isinstance(b[i + 1], (ast.Assign, ast.Return, ast.Expr)):
                    nm = s.targets[0].id
                    nxt = b[i + 1]
                    if nxt.value is not None and any(isinstance(n, ast.Name) and n.id == nm for n in ast.walk(nxt.value)) and \
                            not any(isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.Lambda)) for n in ast.walk(nxt.value)):
                        val = s.value

                        class R(ast.NodeTransformer):
                            def visit_Name(self, n):
                                return val if n.id == nm else n
                        nxt.value = R().visit(nxt.value)
                        me.count += 1
                        i += 1
                        continue
                out.append(s)
                i += 1
            return out
        fn.body = blk(fn.body)
        return fn

    def visit(self, node):
        return ast.NodeTransformer.visit(self, node)


class noop(Blocks):
    """A statement that does nothing in every function."""

    def visit_FunctionDef(self, fn):
        k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body.insert(k, ast.Assign([ast.Name('_unused', ast.Store())], ast.Constant(0)))
        fn.body.insert(k, ast.If(ast.Constant(False), [ast.Pass()], []))
        fn.body.insert(k, ast.Assert(ast.Constant(True)))
        self.count += 1
        return fn

    def visit(self, node):
        return ast.NodeTransformer.visit(self, node)


RULES = {k: v for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, Base) and v not in (Base, Blocks)}


def apply(src, dst, rules):
    for top in ('theanolm', 'wordclasses', 'bin'):
        shutil.copytree(os.path.join(src, top), os.path.join(dst, top), ignore=shutil.ignore_patterns('__pycache__'))
    total = {}
    for d, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.join(d, f)
            if f.endswith('.py') or os.path.basename(d) == 'bin':
                t = ast.parse(open(p, encoding='utf-8').read())
                for r in rules:
                    tr = RULES[r]()
                    t = tr.visit(t)
                    t = ast.fix_missing_locations(t)
                    total[r] = total.get(r, 0) + tr.count
                open(p, 'w', encoding='utf-8').write(ast.unparse(t) + '\n')
    return total


if __name__ == '__main__':
    print(apply(sys.argv[1], sys.argv[2], sys.argv[3:]))
