"""Builds the value-flow summary of a function from its syntax tree.

The builder walks the statements once, in structural order, and joins the
branches of every conditional into one decision diagram (gated single
assignment); loops are summarised by the recurrence of each variable they
carry.  It enumerates no paths, runs nothing, and asks no solver.

The summary of a function is: its returned value, the values it leaves in
object attributes, the exceptions it raises and the calls it makes, each with
the condition that guards it and the loops that enclose it.
"""

import ast
import builtins
import string
from fractions import Fraction

from .terms import *
from . import terms as T

METHOD_FUNCS = {'sum', 'reshape', 'flatten', 'transpose', 'max', 'min', 'mean', 'argmax', 'copy',
                'nonzero', 'argsort', 'any', 'all', 'dimshuffle', 'cumsum', 'clip'}
ARITH = {'add': 'Add', 'sub': 'Sub', 'subtract': 'Sub', 'mul': 'Mult', 'multiply': 'Mult', 'true_div': 'Div',
         'divide': 'Div', 'true_divide': 'Div', 'pow': 'Pow', 'power': 'Pow'}
UNARY = {'sqr': 2, 'square': 2}
SAMEFUNC = {'log': 'log', 'exp': 'exp', 'sqrt': 'sqrt', 'abs': 'abs', 'abs_': 'abs', 'absolute': 'abs', 'tanh': 'tanh'}
EXTREMES = {'numpy.maximum': 'max', 'numpy.minimum': 'min', 'numpy.fmax': 'max', 'numpy.fmin': 'min'}
ARRAY_CTORS = {'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.copy', 'numpy.array', 'numpy.asarray',
               'numpy.zeros_like', 'numpy.ones_like', 'numpy.arange', 'numpy.full', 'scipy.sparse.dok_matrix'}
FRESH = {'readline', 'pop', 'next', 'time', 'uniform', 'multinomial', 'choice', 'randint', 'random', 'shuffle',
         'readlines', 'rand', 'randn', 'sample', 'popleft'}
IGNORED = ('logging.', 'print', 'sys.stdout.', 'gc.', 'time.time', 'warnings.')
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__class__', 'WindowsError'}
LIST_MUT = {'append', 'extend', 'insert', 'add', 'update', 'sort', 'remove', 'clear', 'reverse', 'discard',
            'setdefault', 'fill'}


class Unsupported(Exception):
    pass


UNBOUND = ('s', '<not assigned>')


class Obj(object):
    _n = 0

    def __init__(self, kind, init, ctx, guard):
        Obj._n += 1
        self.id = Obj._n
        self.kind = kind
        self.init = init          # list: tuple of V ; others: a term
        self.records = []         # (op, args tuple of V, ctx, guard)
        self.ctx = ctx
        self.guard = guard


class State(object):
    __slots__ = ('env', 'heap', 'alive', 'ver', 'raised')

    def __init__(self, env, heap, alive, ver):
        self.env = env
        self.heap = heap
        self.alive = alive
        self.ver = ver
        self.raised = False       # every path of this state ended in a raise

    def copy(self):
        s = State(dict(self.env), dict(self.heap), self.alive, dict(self.ver))
        s.raised = self.raised
        return s


class Event(object):
    __slots__ = ('kind', 'data', 'guard', 'ctx', 'node', 'where')

    def __init__(self, kind, data, guard, ctx, node, where):
        self.kind = kind
        self.data = data
        self.guard = guard
        self.ctx = ctx
        self.node = node
        self.where = where

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)

    def __repr__(self):
        return '%s %s if %s in %s' % (self.kind, [show(x) for x in self.data], show(self.guard),
                                      [(show(g), show(l)) for g, l in self.ctx])


class Frame(object):
    def __init__(self, func, cls, module, parent=None):
        self.func = func
        self.cls = cls
        self.module = module
        self.ret = None            # V
        self.ret_alive = VFALSE
        self.loop_rets = []        # stack of lists
        self.parent = parent
        self.closures = {}
        self.stackdepth = 0 if parent is None else parent.stackdepth + 1
        self.nodes = (parent.nodes if parent else ()) + (func,)


class Closure(object):
    _n = 0

    def __init__(self, node, frame):
        Closure._n += 1
        self.id = Closure._n
        self.node = node
        self.frame = frame


class Summary(object):
    def __init__(self):
        self.ret = None
        self.attrs = {}
        self.events = []
        self.defaults = {}
        self.func = None
        self.inlined = []

    def raises(self):
        """exception name -> list of (ctx, guard diagram), guards or-ed."""
        out = {}
        for e in self.events:
            if e.kind == 'raise':
                key = (e.data[0], tuple((l) for g, l in e.ctx))
                g = e.guard
                out[key] = vor(out[key], g) if key in out else g
        return out

    def calls(self, pred):
        return [e for e in self.events if e.kind == 'call' and pred(callee(e.data[0]))]


def callee(t):
    """Printable callee name of a call term: 'numpy.log', '.append', 'Class.m'."""
    if t[0] != 'call':
        return ''
    f = t[1]
    if f[0] == 'm':
        return '.' + f[1]
    if f[0] == 'g':
        return f[1]
    return show(f)


class Interp(object):
    MAXDEPTH = 8

    def __init__(self, project, opaque=(), policy=(), names=None):
        self.project = project
        self.opaque = set(opaque)
        self.policy = policy       # keys 'module:qualname' of functions compared on their own
        self.names = names or {}   # canonical names of renamed attributes and methods
        self.events = []
        self.objs = {}
        self.ext = set()          # collections from outside changed here
        self.ext_skip = None
        self.carry_read = set()
        self.now = VTRUE          # guard of the statement being executed
        self.mutating = []        # per active loop: collections it changes
        self.ctx = ()
        self.closures = {}
        self.fresh = {}
        self.nwhile = 0
        self.lamdepth = 0
        self.unsupported = []
        self.inlined = []
        self.reclog = []           # objects touched (for loop rewriting)
        self.force_opaque_all = False

    # ------------------------------------------------------------- top level

    def summarize(self, func, cls=None, argsyms=None, pre=None):
        """func: project.Func.  argsyms: names to use for the parameters."""
        cls = cls or func.cls
        frame = Frame(func, cls, func.module)
        st = State({}, {}, VTRUE, {})
        names = self._params(func.node)
        for i, n in enumerate(names):
            sym = argsyms[i] if argsyms and i < len(argsyms) else n
            if i == 0 and func.cls is not None and not func.static:
                sym = 'cls' if func.classmethod else 'self'
            st.env[n] = leaf(('sym', sym))
        a = func.node.args
        for j, k in enumerate(a.kwonlyargs):
            st.env[k.arg] = leaf(('sym', k.arg))
        if a.vararg:
            st.env[a.vararg.arg] = leaf(('sym', '*args'))
        if a.kwarg:
            st.env[a.kwarg.arg] = leaf(('sym', '**kwargs'))
        if pre:
            pre(self, st, frame)
        self.block(func.node.body, st, frame)
        if not st.raised and st.alive is not VFALSE:
            self._return(st, frame, VNONE)
        s = Summary()
        s.func = func
        self.now = VTRUE
        s.ret = self.snap(frame.ret) if frame.ret is not None else None
        for (b, attr), v in (getattr(frame, 'exit_heap', None) or st.heap).items():
            sb = self.snap(leaf(b))
            s.attrs[(as_term(sb), attr)] = self.snap(v)
        s.events = self.events
        s.inlined = self.inlined
        s.unsupported = self.unsupported
        s.objs = self.objs
        # parameter defaults
        ds = func.node.args.defaults
        if ds:
            for n, d in zip(names[-len(ds):], ds):
                i = names.index(n)
                sym = argsyms[i] if argsyms and i < len(argsyms) else n
                s.defaults[sym] = self.snap(self.ev(d, State({}, {}, VTRUE, {}), frame))
        return s

    @staticmethod
    def _params(node):
        a = node.args
        return [p.arg for p in getattr(a, 'posonlyargs', []) + a.args]

    # ------------------------------------------------------------ statements

    def block(self, body, st, frame):
        for s in body:
            if st.raised or st.alive is VFALSE:
                break
            self.stmt(s, st, frame)

    def emit(self, kind, data, st, frame, node):
        self.events.append(Event(kind, data, st.alive, self.ctx, node,
                                 '%s:%d' % (frame.module.relpath, getattr(node, 'lineno', 0))))

    def stmt(self, s, st, frame):
        self.now = st.alive
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unsupported.append((type(s).__name__, s.lineno))
            return
        m(s, st, frame)

    def s_Pass(self, s, st, frame):
        pass

    def s_Global(self, s, st, frame):
        pass

    s_Nonlocal = s_Global

    def s_Expr(self, s, st, frame):
        if isinstance(s.value, ast.Constant):
            return
        v = s.value
        if isinstance(v, ast.Call) and ast.unparse(v.func) in ('sys.exit', 'exit', 'os._exit'):
            code = self.deobj(self.ev(v.args[0], st, frame)) if v.args else leaf(ZERO)
            self.emit('raise', (('s', 'SystemExit(%s)' % show(code)),), st, frame, s)
            st.raised = True
            return
        self.ev(v, st, frame)

    def s_Assert(self, s, st, frame):
        c = self.cond(s.test, st, frame)
        if c is VFALSE or (isinstance(s.test, ast.Constant) and not s.test.value):
            self.emit('raise', (('s', 'AssertionError'),), st, frame, s)
            st.raised = True

    def s_Import(self, s, st, frame):
        for a in s.names:
            st.env[a.asname or a.name.split('.')[0]] = leaf(('g', a.name if a.asname else a.name.split('.')[0]))

    def s_ImportFrom(self, s, st, frame):
        for a in s.names:
            st.env[a.asname or a.name] = leaf(('g', canon_global((s.module or '') + '.' + a.name)))

    def s_FunctionDef(self, s, st, frame):
        c = Closure(s, frame)
        self.closures[c.id] = c
        st.env[s.name] = leaf(('obj', 'closure', c.id))

    def s_ClassDef(self, s, st, frame):
        st.env[s.name] = leaf(('g', 'localclass.' + s.name))

    def s_Return(self, s, st, frame):
        v = VNONE if s.value is None else self.ev(s.value, st, frame)
        if st.raised:
            return
        self._return(st, frame, v, s)

    def _return(self, st, frame, v, node=None):
        if frame.loop_rets:
            if st.alive is not VTRUE and st.alive is not VFALSE:
                st.env = {k: x if x.leaf() else restrict(x, st.alive) for k, x in st.env.items()}
                st.heap = {k: x if x.leaf() else restrict(x, st.alive) for k, x in st.heap.items()}
            frame.loop_rets[-1].append((st.alive, v, dict(st.env), dict(st.heap)))
        else:
            if frame.ret is None:
                frame.ret = v
            else:
                frame.ret = choose(st.alive, v, frame.ret)
            self._save_heap(frame, st)
            frame.ret_alive = vor(frame.ret_alive, st.alive)
        st.alive = VFALSE

    def _save_heap(self, frame, st):
        """Heap at a return point, merged into the frame's exit heap."""
        if not hasattr(frame, 'exit_heap') or frame.exit_heap is None:
            frame.exit_heap = dict(st.heap)
            frame.exit_ver = dict(st.ver)
        else:
            frame.exit_heap = self._merge_heap(st.alive, st.heap, frame.exit_heap)
            frame.exit_ver = self._merge_ver(st.ver, frame.exit_ver)

    def _merge_heap(self, c, h1, h2):
        out = {}
        for k in set(h1) | set(h2):
            a = h1.get(k)
            b = h2.get(k)
            if a is None:
                a = leaf(('attr', k[0], k[1]))
            if b is None:
                b = leaf(('attr', k[0], k[1]))
            out[k] = choose(c, a, b)
        return out

    @staticmethod
    def _merge_ver(v1, v2):
        out = {}
        for k in set(v1) | set(v2):
            a, b = v1.get(k, ()), v2.get(k, ())
            out[k] = a if len(a) >= len(b) else b
        return out

    def s_Raise(self, s, st, frame):
        name = '<reraise>'
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            name = ast.unparse(e).split('.')[-1]
            if isinstance(s.exc, ast.Name) and s.exc.id in st.env:
                name = '<reraise>'
        self.emit('raise', (('s', name),), st, frame, s)
        st.raised = True

    def s_Delete(self, s, st, frame):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, frame)
                i = self.index(t.slice, st, frame)
                if not self._record(b, 'delitem', (i,), st):
                    self.emit('delitem', (as_term(self.snap(b)), as_term(self.snap(i))), st, frame, s)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, frame)
                self.emit('delattr', (as_term(self.snap(b)), ('s', t.attr)), st, frame, s)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)

    def s_Assign(self, s, st, frame):
        v = self.ev(s.value, st, frame)
        for t in s.targets:
            self.assign(t, v, st, frame)

    def s_AnnAssign(self, s, st, frame):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, frame), st, frame)

    def s_AugAssign(self, s, st, frame):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st, frame)
            new = self.ev(s.value, st, frame)
            if op == 'Add' and old.leaf() and old.term[0] == 'obj' and self._objkind(old) == 'list':
                self._record(old, 'extend', (new,), st)
                return
            if op == 'BitOr' and old.leaf() and old.term[0] == 'obj':
                self._record(old, 'update', (new,), st)
                return
            val = self.arith(op, self.deobj(old), self.deobj(new))
            if old.leaf() and self._array_alias(old.term):
                # the array is changed in place, wherever else it is held
                self.setitem(old, leaf(('slice', NONE, NONE, NONE)), val, st, frame, t)
            st.env[t.id] = val
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, frame)
            old = self.getattr(b, t.attr, st, frame)
            new = self.ev(s.value, st, frame)
            if op == 'Add' and old.leaf() and old.term[0] == 'obj' and self._objkind(old) == 'list':
                self._record(old, 'extend', (new,), st)
                return
            self.setattr(b, t.attr, self.arith(op, self.deobj(old), self.deobj(new)), st, frame, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, frame)
            i = self.index(t.slice, st, frame)
            old = self.getitem(b, i, st)
            new = self.ev(s.value, st, frame)
            self.setitem(b, i, self.arith(op, self.deobj(old), self.deobj(new)), st, frame, t)

    @staticmethod
    def _array_alias(t):
        while t[0] == 'sub' and t[2][0] == 'slice':
            t = t[1]
        return t[0] == 'attr' and t[2] in T.ARRAY_ATTRS or t[0] == 'sym' and t[1] in T.ARRAY_SYMS

    def assign(self, t, v, st, frame):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, frame)
            self.setattr(b, t.attr, v, st, frame, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, frame)
            i = self.index(t.slice, st, frame)
            self.setitem(b, i, v, st, frame, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, self.getitem(v, leaf(('slice', num(k), NONE, NONE)), st), st, frame)
                else:
                    self.assign(e, self.getitem(v, leaf(num(k)), st), st, frame)
        else:
            self.unsupported.append(('assign', getattr(t, 'lineno', 0)))

    def s_If(self, s, st, frame):
        c = self.cond(s.test, st, frame)
        c = restrict(c, st.alive)
        self.branch(c, st, frame,
                    lambda x: self.block(s.body, x, frame),
                    lambda x: self.block(s.orelse, x, frame))

    def branch(self, c, st, frame, f1, f2):
        if c is VTRUE:
            f1(st)
            return
        if c is VFALSE:
            f2(st)
            return
        before = st.alive
        a = st.copy()
        b = st.copy()
        a.alive = vand(before, c)
        mark = self._mark(frame)
        f1(a)
        # the other branch does not see what this one put into collections
        stash = {i: o.records[mark[1][i]:] for i, o in self.objs.items() if i in mark[1] and len(o.records) > mark[1][i]}
        for i in stash:
            del self.objs[i].records[mark[1][i]:]
        if a.raised:
            # what follows a raise needs no guard: reaching it implies not c,
            # unless some path left before the raise
            gone = self._left(mark, frame)
            if gone is not VFALSE:
                st.alive = vand(before, vnot(gone))
            f2(st)
            return
        b.alive = vand(before, vnot(c))
        nb = len(self.events)
        left = self._left(mark, frame)
        f2(b)
        if b.raised and self._left(mark, frame) is not left:
            self._rollback(mark, frame)
            self.branch(vnot(c), st, frame, f2, f1)
            return
        if b.raised:
            kept = self.events[nb:]
            self._rollback(mark, frame)
            self.events.extend(kept)
            f1(st)
            return
        for i, rs in stash.items():
            self.objs[i].records[mark[1][i]:mark[1][i]] = rs
        self.merge(c, st, a, b, before)

    def _left(self, m, frame):
        """Paths that returned, broke out or continued since the mark."""
        g = VFALSE
        if frame.ret_alive is not m[7]:
            g = vor(g, vand(frame.ret_alive, vnot(m[7])))
        for xs, ns in ((frame.loop_rets, m[10]), (self._breaks or [], m[11]), (self._continues or [], m[12])):
            if xs and ns and len(xs) == len(ns):
                for e in xs[-1][ns[-1]:]:
                    g = vor(g, e[0])
        return g

    def _mark(self, frame):
        return (len(self.events), {i: len(o.records) for i, o in self.objs.items()}, self.nwhile, dict(self.fresh),
                len(self.inlined), len(self.unsupported), frame.ret, frame.ret_alive, getattr(frame, 'exit_heap', None),
                getattr(frame, 'exit_ver', None), [len(x) for x in frame.loop_rets],
                [len(x) for x in self._breaks or []], [len(x) for x in self._continues or []])

    def _rollback(self, m, frame):
        del self.events[m[0]:]
        for i in list(self.objs):
            if i in m[1]:
                del self.objs[i].records[m[1][i]:]
            else:
                del self.objs[i]
        self.nwhile, self.fresh = m[2], dict(m[3])
        del self.inlined[m[4]:]
        del self.unsupported[m[5]:]
        frame.ret, frame.ret_alive, frame.exit_heap, frame.exit_ver = m[6:10]
        for x, n in zip(frame.loop_rets, m[10]):
            del x[n:]
        for x, n in zip(self._breaks or [], m[11]):
            del x[n:]
        for x, n in zip(self._continues or [], m[12]):
            del x[n:]

    def merge(self, c, st, a, b, before):
        if a.raised and b.raised:
            st.raised = True
            st.env, st.heap, st.ver = a.env, a.heap, a.ver
            return
        if a.raised or b.raised:        # only for exception handlers
            x = b if a.raised else a
            st.env, st.heap, st.ver = x.env, x.heap, x.ver
            # the raising branch is dropped: what follows needs no guard
            g = c if b.raised else vnot(c)
            full = vand(before, g)
            if x.alive is full:
                st.alive = before
            else:
                # paths that returned or continued stay excluded
                gone = vand(full, vnot(x.alive))
                st.alive = vand(before, vnot(gone))
                if x.alive is VFALSE:
                    st.alive = VFALSE
            return
        st.alive = vor(a.alive, b.alive)
        if a.alive is VFALSE or b.alive is VFALSE:
            x = b if a.alive is VFALSE else a
            st.env, st.heap, st.ver = x.env, x.heap, x.ver
            if st.alive is not VTRUE and st.alive is not VFALSE:
                # the other path has left, so what chose it is known from here on
                st.env = {k: v if v.leaf() else restrict(v, st.alive) for k, v in st.env.items()}
                st.heap = {k: v if v.leaf() else restrict(v, st.alive) for k, v in st.heap.items()}
            return
        env = {}
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is None:
                env[k] = y
            elif y is None:
                env[k] = x
            else:
                env[k] = restrict(choose(c, x, y), st.alive)
        heap = self._merge_heap(c, a.heap, b.heap)
        st.env = env
        st.heap = {k: restrict(v, st.alive) for k, v in heap.items()}
        st.ver = self._merge_ver(a.ver, b.ver)

    def s_With(self, s, st, frame):
        for item in s.items:
            v = self.ev(item.context_expr, st, frame)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st, frame)
        self.block(s.body, st, frame)

    def s_Try(self, s, st, frame):
        pre = st.copy()
        n0 = len(self.events)
        self.block(s.body, st, frame)
        if s.orelse and not st.raised:
            self.block(s.orelse, st, frame)
        body_events = self.events[n0:]
        for h in s.handlers:
            tname = 'Exception' if h.type is None else ast.unparse(h.type)
            tname = ','.join(sorted(x.split('.')[-1] for x in tname.strip('()').replace(' ', '').split(',')))
            atom = None
            if tname == 'KeyError':
                subs = [n for b in s.body for n in ast.walk(b) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load)]
                inner = [n for b in s.body for c in ast.walk(b) if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.Lambda, ast.For)) for n in ast.walk(c)]
                if len(subs) == 1 and subs[0] not in inner:
                    save = len(self.events)
                    d = self.deobj(self.ev(subs[0].value, pre.copy(), frame))
                    k = self.deobj(self.index(subs[0].slice, pre.copy(), frame))
                    del self.events[save:]
                    atom = vnot(lift(cmp_in, k, d))
            if atom is None:
                key = tuple(e.data for e in body_events if e.kind == 'call' or
                            e.kind == 'setitem' and not (e.data[0][0] == 'attr' and e.data[0][1] == ('sym', 'self')))[:6]
                srcs = key
                atom = atomv(('exc', ('s', tname), srcs))
            hs = pre.copy()
            hs.alive = vand(pre.alive, atom)
            if h.name:
                hs.env[h.name] = leaf(('sym', 'exc:' + tname))
            self.block(h.body, hs, frame)
            bs = st.copy()
            bs.alive = vand(bs.alive, vnot(atom)) if not hs.raised else bs.alive
            if hs.raised:
                st.env, st.heap, st.ver, st.alive, st.raised = bs.env, bs.heap, bs.ver, bs.alive, bs.raised
            else:
                self.merge(atom, st, hs, bs, pre.alive)
        if s.finalbody and not st.raised:
            self.block(s.finalbody, st, frame)

    # ----------------------------------------------------------------- loops

    def s_For(self, s, st, frame):
        jumps = any(isinstance(n, (ast.Break, ast.Continue, ast.Return)) for b in s.body for n in ast.walk(b))
        if not jumps and isinstance(s.iter, (ast.Tuple, ast.List)) and 0 < len(s.iter.elts) <= 8 \
                and not any(isinstance(x, ast.Starred) for x in s.iter.elts):
            unroll = [self.ev(x, st, frame) for x in s.iter.elts]
        else:
            it = self.ev(s.iter, st, frame)
            unroll = None if jumps else self._literal_items(it)
        if unroll is not None:
            for v in unroll:
                self.assign(s.target, v, st, frame)
                self.block(s.body, st, frame)
            return
        pushes, guard, elem = self.iterate(it, st)

        def bind(x):
            self.assign(s.target, elem, x, frame)
        self.loop(pushes, guard, bind, s.body, st, frame)
        if s.orelse and any(isinstance(n, ast.Break) for b in s.body for n in ast.walk(b)):
            self.unsupported.append('for-else with break')
        if s.orelse and not st.raised:
            self.block(s.orelse, st, frame)

    def s_While(self, s, st, frame):
        f = self._counting(s, st)
        if f is not None:
            self.s_For(f, st, frame)
            return
        self.nwhile += 1
        n = self.nwhile
        L = ('W', n)
        body = s.body
        const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
        if not const_true:
            test = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=s.test), body=[ast.Break()], orelse=[])
            ast.copy_location(test, s)
            ast.fix_missing_locations(test)
            body = [test] + list(body)
        self.loop([L], VTRUE, None, body, st, frame)

    def _counting(self, s, st):
        """while i < n: ...; i += 1   is   for i in range(i0, n): ..."""
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)
                            and isinstance(t.ops[0], (ast.Lt, ast.NotEq))):
            return None
        i = t.left.id
        last = s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == i
                and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        used = {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}
        for b in s.body[:-1]:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in used | {i}:
                    return None
                if isinstance(n, (ast.Break, ast.Continue)):
                    return None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                        and n.func.value.id in used and n.func.attr in LIST_MUT | {'pop'}:
                    return None
        v = st.env.get(i)
        if v is None or not v.leaf() or v.term[0] != 'c':
            return None
        f = ast.For(target=ast.Name(i, ast.Store()), iter=ast.Call(
            func=ast.Name('range', ast.Load()), args=[ast.Name(i, ast.Load()), t.comparators[0]], keywords=[]),
            body=s.body[:-1] or [ast.Pass()], orelse=[])
        ast.copy_location(f, s)
        ast.fix_missing_locations(f)
        return f

    def s_Break(self, s, st, frame):
        self.emit('break', (), st, frame, s)
        self._breaks[-1].append((st.alive, dict(st.env), dict(st.heap)))
        st.alive = VFALSE

    def s_Continue(self, s, st, frame):
        self._continues[-1].append((st.alive, dict(st.env), dict(st.heap)))
        st.alive = VFALSE

    _breaks = None
    _continues = None

    def _run_body(self, L, ctx, guard, bind, body, st, frame, keys):
        """Executes the loop body once. keys: carried ('e',name)/('h',key)."""
        x = st.copy()
        x.alive = guard
        for k in keys:
            if k[0] == 'h' and contains(leaf(k[1][0]), lambda t: t[0] in ('elem', 'idx') and t[1] == L):
                # an attribute of this iteration's own element
                continue
            mu = leaf(('mu', L, k))
            if k[0] == 'e':
                x.env[k[1]] = mu
            else:
                x.heap[k[1]] = mu
        self._breaks = (self._breaks or []) + [[]]
        self._continues = (self._continues or []) + [[]]
        frame.loop_rets.append([])
        saved = self.ctx
        self.ctx = ctx
        if bind:
            bind(x)
        self.block(body, x, frame)
        self.ctx = saved
        br = self._breaks.pop()
        co = self._continues.pop()
        rets = frame.loop_rets.pop()
        # value at the end of an iteration: merge of the continue points
        env, heap = x.env, x.heap
        live = VFALSE if x.raised else x.alive
        first = live is VFALSE
        for g, e, h in co:
            if first:
                env, heap = e, h
                first = False
            else:
                env = self._merge_env(g, e, env)
                heap = self._merge_heap2(g, h, heap)
            live = vor(live, g)
        if live is not VFALSE and live is not VTRUE:
            # only iterations that come to their end hand values to the next
            env = {k: v if v.leaf() else constrain(v, live) for k, v in env.items()}
            heap = {k: v if v.leaf() else constrain(v, live) for k, v in heap.items()}
        return x, env, heap, br, rets

    @staticmethod
    def _merge_env(c, a, b):
        out = dict(b)
        for k, v in a.items():
            out[k] = choose(c, v, b[k]) if k in b else v
        return out

    def _merge_heap2(self, c, a, b):
        return self._merge_heap(c, a, b)

    def loop(self, pushes, guard, bind, body, st, frame):
        alive0 = st.alive
        L = pushes[-1]
        ctx = self.ctx
        g = alive0
        for p in pushes:
            ctx = ctx + ((g, p),)
            g = VTRUE
        # discovery pass: what does the body change?
        n_ev = len(self.events)
        n_rec = {i: len(o.records) for i, o in self.objs.items()}
        nw, fr, ncl = self.nwhile, dict(self.fresh), len(self.inlined)
        nu = len(self.unsupported)
        keys = []
        touched = set()
        self.mutating.append(touched)
        while True:
            isnap = {}
            for k in keys:
                v = st.env[k[1]] if k[0] == 'e' else st.heap.get(k[1])
                if v is not None:
                    isnap[k] = self.snap(v)
            x, env, heap, br, rets = self._run_body(L, ctx, guard, bind, body, st, frame, keys)
            new = []
            for src in [(env, heap)] + [(e, h) for _, e, h in br]:
                e, h = src
                for k, v in e.items():
                    if k in st.env and v is not st.env[k] and ('e', k) not in keys and ('e', k) not in new:
                        new.append(('e', k))
                for k, v in h.items():
                    old = st.heap.get(k)
                    if (old is None or v is not old) and ('h', k) not in keys and ('h', k) not in new:
                        if not contains(leaf(k[0]), lambda t: t[0] in ('elem', 'idx')) or True:
                            new.append(('h', k))
            grown = {i for i, o in self.objs.items() if i not in touched and len(o.records) > n_rec.get(i, 0) and
                     (i in n_rec or o.kind == 'ext' and len(o.ctx) < len(ctx))}
            if not new and not grown:
                break
            keys += new
            touched |= grown
            del self.events[n_ev:]
            for i in list(self.objs):
                if i in n_rec:
                    del self.objs[i].records[n_rec[i]:]
                else:
                    del self.objs[i]
            self.nwhile, self.fresh = nw, dict(fr)
            del self.inlined[ncl:]
            del self.unsupported[nu:]
            if len(keys) > 200:
                raise Unsupported('loop does not stabilise')
        self.mutating.pop()
        carried = [i for i in touched if i in self.carry_read and i in self.objs and self.objs[i].kind != 'ext']
        # heap entries on per-iteration objects are not carried
        inits, steps, brks = {}, {}, {}
        for k in keys:
            if k[0] == 'e':
                inits[k] = self.snapm(st.env[k[1]])
                steps[k] = self.snapm(env.get(k[1], leaf(('mu', L, k))))
                brks[k] = tuple((gb, self.snapm(e.get(k[1], leaf(('mu', L, k))))) for gb, e, h in br)
            else:
                inits[k] = self.snapm(st.heap.get(k[1], leaf(('attr', k[1][0], k[1][1]))))
                steps[k] = self.snapm(heap.get(k[1], leaf(('mu', L, k))))
                brks[k] = tuple((gb, self.snapm(h.get(k[1], leaf(('mu', L, k))))) for gb, e, h in br)

        mus = {('mu', L, k): k for k in keys}

        def has_mu(v):
            return contains(v, lambda t: t in mus)

        final = {}
        replace = {}
        rest = []
        for k in keys:
            mu = leaf(('mu', L, k))
            if steps[k] is mu and not brks[k]:
                final[k] = inits[k]
                replace[('mu', L, k)] = inits[k]
                continue
            if len(pushes) == 1 and L[0] == 'L' and guard is VTRUE and k[0] == 'e':
                # counts the iterations
                d = as_term(lift(lambda a, b: leaf(t_add(a, b, -1)) if a[0] not in NONNUM else leaf(NONE), steps[k], mu))
                if d[0] == 'c' and all(t[0] in ('c', 'poly') for t in leaves_of(inits[k])):
                    replace[('mu', L, k)] = lift(lambda a: leaf(t_add(a, t_mul(d, ('idx', L)))), inits[k])
            if not br and not rets:
                d = lift(lambda a, b: leaf(t_add(a, b, -1)) if a[0] not in NONNUM else leaf(('unknown', 'nonnum')), steps[k], mu)
                if not has_mu(d) and not contains(d, lambda t: t[0] == 'unknown' and t[1] == 'nonnum'):
                    d = ite(guard, d, leaf(ZERO))
                    s_ = d
                    for p in reversed(pushes):
                        s_ = mk_sum(p, s_)
                    final[k] = lift(lambda a, b: leaf(t_add(a, b)), inits[k], s_)
            rest.append(k)
        # colour refinement for the others
        isnap = {k: isnap.get(k, inits[k]) for k in rest}
        ssnap = {k: self.snap(steps[k]) for k in rest}
        bsnap = {k: tuple((self.snap(a), self.snap(b)) for a, b in brks[k]) for k in rest}
        color = {k: ('col', as_term(isnap[k])) for k in rest}
        if rest:
            for _ in range(3):
                new = {}
                memo = {}
                table = {('mu', L, k): leaf(('mu', L, color[k])) for k in rest}
                table.update(replace)

                def fn(t):
                    return table.get(t)
                for k in rest:
                    sv = subst(ite(guard, ssnap[k], leaf(('mu', L, k))), fn, memo)
                    bv = tuple((subst(a, fn, memo), subst(b, fn, memo)) for a, b in bsnap[k])
                    desc = ('col', as_term(isnap[k]), as_term(sv), tuple((as_term(a), as_term(b)) for a, b in bv), k[1] if k[0] == 'h' else 'e')
                    new[k] = ('col', ('c', Fraction(tid(desc))))
                    T.COLORS[tid(desc)] = desc
                color = new
        table = dict(replace)
        for k in rest:
            table.setdefault(('mu', L, k), leaf(('mu', L, color[k])))

        def fn(t):
            return table.get(t)
        memo = {}
        for e in self.events[n_ev:]:
            e.data = tuple(as_term(subst_term(d, fn, memo)) if isinstance(d, tuple) else d for d in e.data)
            e.guard = subst(e.guard, fn, memo)
            e.ctx = tuple((subst(gg, fn, memo), as_term(subst_term(ll, fn, memo))) for gg, ll in e.ctx)
        for i, o in self.objs.items():
            start = n_rec.get(i, 0)
            for j in range(start, len(o.records)):
                op, args, c, gg = o.records[j]
                o.records[j] = (op, tuple(subst(a, fn, memo) for a in args),
                                tuple((subst(x1, fn, memo), x2) for x1, x2 in c), subst(gg, fn, memo))
        # an iteration takes place only if the loop was not left before it
        left = VFALSE
        for gb, _, _ in br:
            left = vor(left, subst(gb, fn, memo))
        for gr, _, _, _ in rets:
            left = vor(left, subst(gr, fn, memo))
        if left is not VFALSE:
            d = len(ctx) - 1
            here = atomv(('reached', L, as_term(left)))

            def reach(c):
                if len(c) > d and c[d][1] == L:
                    return c[:d] + ((vand(c[d][0], here), c[d][1]),) + c[d + 1:]
                return c
            for e in self.events[n_ev:]:
                e.ctx = reach(e.ctx)
            for i, o in self.objs.items():
                for j in range(n_rec.get(i, 0), len(o.records)):
                    op, args, c, gg = o.records[j]
                    o.records[j] = (op, args, reach(c), gg)
        # what one iteration leaves for the next in the collections it reads
        for i in carried:
            o = self.objs[i]
            saved, saved_now = self.ctx, self.now
            self.ctx, self.now = ctx, VTRUE
            rs = o.records
            o.records = rs[n_rec.get(i, 0):]
            t = as_term(self._contents(o, (i,)))
            o.records = rs
            self.ctx, self.now = saved, saved_now
            if t[0] == 'mut':
                self.events.append(Event('carry', (('mut', t[1], (), t[3]),), alive0, self.ctx, body[0] if body else None,
                                         '%s:%d' % (frame.module.relpath, body[0].lineno if body else 0)))
        # environment after the loop
        for k in keys:
            v = final.get(k)
            if v is None:
                v = leaf(('out', L, color[k]))
            if k[0] == 'e':
                st.env[k[1]] = v
            else:
                st.heap[k[1]] = v
        for src in [env] + [e for _, e, h in br]:
            for k, v in src.items():
                if k not in st.env:
                    v = subst(v, fn, memo)
                    if br and st.env is not None:
                        # the value at the break, or that of the last iteration
                        bv = tuple((as_term(self.snap(subst(gb, fn, memo))), as_term(self.snap(subst(e[k], fn, memo)))
                                    if k in e else UNBOUND) for gb, e, h in br)
                        same = all(b == as_term(self.snap(v)) for a, b in bv)
                        if not same or contains(v, lambda t: t[0] in ('elem', 'idx', 'mu') and len(t) > 1 and t[1] in pushes):
                            desc = ('last', as_term(self.snap(v)), bv)
                            T.COLORS[tid(desc)] = desc
                            v = leaf(('out', L, ('col', ('c', Fraction(tid(desc))))))
                    elif contains(v, lambda t: t[0] in ('elem', 'idx', 'mu') and len(t) > 1 and t[1] in pushes):
                        # the value of the last iteration
                        desc = ('last', as_term(self.snap(v)))
                        T.COLORS[tid(desc)] = desc
                        v = leaf(('out', L, ('col', ('c', Fraction(tid(desc))))))
                    st.env[k] = v
        st.ver = x.ver
        # collections that exist per iteration
        for i, o in list(self.objs.items()):
            if o.kind == 'ext' and contains(o.init, lambda t: t[0] in ('elem', 'idx', 'mu') and len(t) > 1 and t[1] in pushes):
                del self.objs[i]
                self.ext.discard(o.init)
        # returns inside the loop
        for gr, v, e, h in rets:
            gr = subst(gr, fn, memo)
            v = subst(v, fn, memo)
            if pushes[-1][0] == 'W' and not keys and gr is VTRUE:
                ex = VTRUE
            else:
                ex = atomv(('exists', pushes[-1], as_term(gr)))
            if frame.loop_rets:
                frame.loop_rets[-1].append((vand(st.alive, ex), v, e, h))
            else:
                frame.ret = v if frame.ret is None else ite(vand(st.alive, ex), v, frame.ret)
                hh = {kk: subst(vv, fn, memo) for kk, vv in h.items()}
                st2 = st.copy()
                st2.heap = hh
                st2.alive = vand(st.alive, ex)
                self._save_heap(frame, st2)
                frame.ret_alive = vor(frame.ret_alive, vand(st.alive, ex))
            st.alive = vand(st.alive, vnot(ex))
        # a while-True without break never falls through
        if pushes[-1][0] == 'W' and not br:
            st.alive = VFALSE

    def snapm(self, v):
        return v

    def _literal_items(self, it):
        if not it.leaf():
            return None
        t = it.term
        if t[0] == 'tuple' and 1 < len(t) <= 9:
            return [leaf(x) for x in t[1:]]
        if t[0] == 'obj' and t[1] == 'o':
            o = self.objs[t[2]]
            if o.kind == 'list' and not o.records and not self._carried(o) and 0 < len(o.init) <= 8 and all(x.leaf() and x.term[0] in ('s', 'c') for x in o.init):
                return list(o.init)
        return None

    def newL(self, term):
        n = 0
        while any(l == ('L', term, n) for _, l in self.ctx):
            n += 1
        return ('L', term, n)

    def iterate(self, it, st):
        """(loop labels, guard, element value)."""
        if not it.leaf():
            t = ('v', self.snap(it))
            L = self.newL(t)
            return [L], VTRUE, leaf(('elem', L))
        t = it.term
        if t[0] == 'call' and t[1][0] == 'g':
            name, args = t[1][1], t[2]
            if name == 'enumerate' and args:
                start = args[1] if len(args) > 1 else dict(t[3]).get('start', ZERO)
                p, g, e = self.iterate(leaf(args[0]), st)
                if len(p) == 1 and g is VTRUE:
                    return p, g, self.tup([leaf(t_add(('idx', p[-1]), start)), e])
                p, g, e = self.iterate_plain(leaf(self._plain(args[0])), st)
                return p, g, self.tup([leaf(t_add(('idx', p[-1]), start)), e])
            if name == 'range' and 1 <= len(args) <= 2:
                lo = args[0] if len(args) == 2 else ZERO
                n = t_add(args[-1], lo, -1)
                if T._is_len(n):
                    L = self.newL(self._iterbase(n[2][0]))
                else:
                    L = self.newL(('call', ('g', 'range'), (n,), ()))
                return [L], VTRUE, leaf(t_add(('idx', L), lo))
            if name == 'zip' and args and not any(a[0] == 'star' for a in args):
                args2 = [self._iterbase(a) for a in args]
                first = min(range(len(args2)), key=lambda i: (self._tidkey(args2[i])))
                L = self.newL(args2[first])
                es = []
                for i, a in enumerate(args2):
                    if i == first:
                        es.append(leaf(('elem', L)))
                    else:
                        es.append(leaf(('sub', a, ('idx', L))))
                return [L], VTRUE, self.tup(es)
            if name in ('iter', 'list', 'tuple', 'sorted_') and len(args) == 1:
                return self.iterate(leaf(args[0]), st)
        if t[0] == 'call' and t[1][0] == 'm' and len(t[2]) == 1 and t[1][1] in ('items', 'keys', 'values'):
            d = t[2][0]
            return self._iter_dict(leaf(d), t[1][1], st)
        if t[0] == 'obj' and t[1] == 'o' and self.objs[t[2]].kind == 'dict':
            return self._iter_dict(it, 'keys', st)
        if t[0] == 'bound_items':
            return self._iter_dict(leaf(t[1]), t[2], st)
        s = as_term(self.snap(it))
        if s[0] == 'mut' and s[1] in ('list',) and not s[2] and len(s[3]) == 1 and s[3][0][0] == 'append':
            op, args, ctx, g = s[3][0]
            if ctx and not any(l in [x for _, x in self.ctx] for _, l in ctx):
                gg = from_term(g)
                outer = [from_term(x) for x, _ in ctx]
                if all(o is VTRUE for o in outer):
                    return [l for _, l in ctx], gg, from_term(args[0])
        if s[0] == 'sub' and s[2][0] == 'slice' and s[2][3] == NONE and s[2][2] == NONE and \
                s[2][1][0] == 'c' and s[2][1][1] > 0:
            lo = s[2][1]
            n = t_add(('call', ('g', 'len'), (s[1],), ()), lo, -1)
            L = self.newL(('call', ('g', 'range'), (n,), ()))
            return [L], VTRUE, leaf(mk_sub(s[1], t_add(('idx', L), lo)))
        L = self.newL(s)
        return [L], VTRUE, leaf(('elem', L))

    def _tidkey(self, t):
        return tid(t)

    def iterate_plain(self, it, st):
        L = self.newL(it.term)
        return [L], VTRUE, leaf(('elem', L))

    def _plain(self, t):
        return as_term(self.snap(leaf(t)))

    def _iterbase(self, t):
        t = as_term(self.snap(leaf(t)))
        if t[0] == 'call' and t[1] == ('m', 'keys') and len(t[2]) == 1:
            return t[2][0]
        return t

    def _iter_dict(self, d, what, st):
        t = d.term if d.leaf() else ('v', d)
        if t[0] == 'obj' and t[1] == 'o':
            o = self.objs[t[2]]
            keys = []
            ctxs = []
            for op, args, ctx, g in o.records:
                if op == 'setitem':
                    if args[0] not in keys:
                        keys.append(args[0])
                        ctxs.append((ctx, g))
                else:
                    keys = None
                    break
            if keys is not None and len(keys) == 1 and not self._carried(o) and len(ctxs[0][0]) == len(o.ctx) + 1 and ctxs[0][1] is VTRUE \
                    and keys[0].leaf() and keys[0].term == ('elem', ctxs[0][0][-1][1]):
                L = ctxs[0][0][-1][1]
                if L not in [l for _, l in self.ctx]:
                    k = keys[0]
                    val = self.getitem(d, k, st)
                    if what == 'items':
                        return [L], VTRUE, self.tup([k, val])
                    return [L], VTRUE, (k if what == 'keys' else val)
        s = as_term(self.snap(d))
        L = self.newL(s)
        k = leaf(('elem', L))
        val = leaf(('sub', s, ('elem', L)))
        if what == 'items':
            return [L], VTRUE, self.tup([k, val])
        return [L], VTRUE, (k if what == 'keys' else val)

    # --------------------------------------------------------------- objects

    def new(self, kind, init, st):
        o = Obj(kind, init, self.ctx, st.alive)
        self.objs[o.id] = o
        return leaf(('obj', 'o', o.id))

    def _objkind(self, v):
        t = v.term
        return self.objs[t[2]].kind if t[0] == 'obj' and t[1] == 'o' else None

    def _record(self, b, op, args, st):
        if not b.leaf() or b.term[0] != 'obj' or b.term[1] != 'o':
            return False
        o = self.objs[b.term[2]]
        o.records.append((op, args, self.ctx, st.alive))
        return True

    def deobj(self, v):
        """Replaces container references by their current contents."""
        return self.snap(v)

    def snap(self, v, stack=()):
        if v is None:
            return None
        memo = {}

        def fn(t):
            if t[0] == 'obj' and t[1] == 'o':
                if t[2] in stack:
                    return leaf(('unknown', 'cyclic'))
                return self._contents(self.objs[t[2]], stack + (t[2],))
            if t[0] == 'obj' and t[1] == 'closure':
                return leaf(self._closure_term(t[2]))
            if t in self.ext and t not in stack and t != self.ext_skip:
                o = self.objs.get(('ext', t))
                if o is not None and (o.records or self._carried(o)):
                    return self._contents(o, stack + (t,))
            return None
        return subst(v, fn, memo)

    def _ext(self, t):
        """The record of what this function does to a collection it did not
        create."""
        k = ('ext', t)
        if k not in self.objs:
            self.ext.add(t)
            n = 0
            for i, (g, l) in enumerate(self.ctx):
                if contains(t, lambda x: x[0] in ('elem', 'idx', 'mu') and len(x) > 1 and x[1] == l):
                    n = i + 1
            o = Obj('ext', t, self.ctx[:n], VTRUE)
            o.id = k
            self.objs[k] = o
        return self.objs[k]

    def _is_ext(self, b):
        return b.leaf() and b.term[0] in ('sym', 'attr', 'sub', 'elem', 'mu', 'imp', 'call', 'out', 'after') and b.term != ('sym', 'self')

    def _ext_record(self, b, op, args, st):
        if self._is_ext(b):
            o = self._ext(b.term)
            o.records.append((op, args, self.ctx, st.alive))

    def _closure_term(self, cid):
        c = self.closures[cid]
        if getattr(c, 'term', None) is not None:
            return c.term
        c.term = ('unknown', 'closure ' + getattr(c.node, 'name', 'lambda'))
        return c.term

    def _carried(self, o):
        """Inside a loop that changes it, a collection made before the loop
        holds what earlier iterations left in it."""
        return any(o.id in s for s in self.mutating)

    def _contents(self, o, stack):
        n = len(o.ctx)
        recs = []
        if self.mutating and self._carried(o):
            recs.append(('carried', (), (), TRUE))
            self.carry_read.add(o.id)
        for op, args, ctx, g in o.records:
            if ctx == self.ctx[:len(ctx)]:
                now = self.now if len(ctx) == len(self.ctx) else self.ctx[len(ctx)][0]
                if now is not VFALSE:
                    if vand(g, now) is VFALSE:
                        continue
                    g = restrict(g, now)
            rctx = tuple((as_term(self.snap(gg, stack)), as_term(self.snap(leaf(l), stack))) for gg, l in ctx[n:])
            if len(ctx) == n:
                g = restrict(g, o.guard)
            else:
                # guard of the outermost relative loop, given creation
                g0 = restrict(ctx[n][0], o.guard)
                rctx = ((as_term(self.snap(g0, stack)), rctx[0][1]),) + rctx[1:]
            a = tuple(as_term(self.snap(x, stack)) for x in args)
            # a guard of an enclosing loop is invariant inside it
            gs = self.snap(g, stack)
            for gg, l in rctx:
                gs = vand(truth_term(gg), gs)
            rctx = tuple((TRUE, l) for gg, l in rctx)
            recs.append((op, a, rctx, as_term(gs)))
        if o.kind == 'list':
            init = [as_term(self.snap(x, stack)) for x in o.init]
            return leaf(mk_list(init, recs))
        if o.kind == 'dict':
            return leaf(mk_dict(recs))
        if o.kind == 'set':
            init = [as_term(self.snap(x, stack)) for x in o.init]
            return leaf(mk_list(init, recs, 'set'))
        if o.kind == 'ext':
            recs = canon_records(recs)
            if not recs:
                return leaf(o.init)
            d = ('mut', 'ext', o.init, tuple(recs))
            T.AFTER[tid(d)] = d
            return leaf(('after', ('c', Fraction(tid(d))), ('s', 'contents')))
        init = as_term(self.snap(leaf(o.init), stack)) if isinstance(o.init, tuple) else as_term(self.snap(o.init, stack))
        if not recs:
            return leaf(init)
        recs = canon_records(recs)
        return leaf(('mut', 'array', init, tuple(recs)))

    def getitem(self, b, i, st):
        def f(bt, it):
            if bt[0] == 'obj' and bt[1] == 'o':
                return self._obj_get(self.objs[bt[2]], bt, it, st)
            return leaf(mk_sub(bt, it))
        if b.leaf() and b.term[0] == 'obj':
            return lift(lambda it: f(b.term, it), self.deobj(i))
        if i.leaf() and i.term[0] == 'c' and i.term[1].denominator == 1 and b.size <= LIMIT:
            # components of a tuple keep their identity
            k = int(i.term[1])
            ts = list(leaves_of(b))
            if all(t[0] == 'tuple' and -len(t) < k < len(t) - 1 for t in ts):
                return map_leaves(b, lambda t: from_term(t[1:][k]) if t[1:][k][0] != 'obj' else leaf(t[1:][k]))
        if b.leaf() and ('ext', b.term) in self.objs and i.leaf():
            o = self.objs[('ext', b.term)]
            if o.records:
                op, args, ctx, g = o.records[-1]
                if op == 'setitem' and args[0] is self.deobj(i) and ctx == self.ctx and restrict(g, st.alive) is VTRUE:
                    return args[1]
        bv, iv = self.deobj(b), self.deobj(i)
        if bv.leaf() and not iv.leaf() and all(t[0] == 'slice' and t[1] == NONE and t[3] == NONE and t[2] != NONE for t in leaves_of(iv)):
            # x[:min(n, len(x))] is x[:n]
            terms = T._extremes.get(id(map_leaves(iv, lambda t: leaf(t[2]))), ('', ()))
            n = ('call', ('g', 'len'), (bv.term,), ())
            if terms[0] == 'min' and n in terms[1]:
                iv = map_leaves(extreme('min', terms[1] - {n}), lambda t: leaf(('slice', NONE, t, NONE)))
        return lift(f, bv, iv)

    def _obj_get(self, o, bt, it, st):
        key = leaf(it)
        if o.records and o.kind in ('list', 'dict', 'array'):
            op, args, ctx, g = o.records[-1]
            if op == 'setitem' and ctx == self.ctx and self.deobj(args[0]) is key and restrict(g, st.alive) is VTRUE:
                return args[1]
        if self.mutating and self._carried(o):
            if o.kind not in ('array', 'ext'):
                return leaf(mk_sub(as_term(self._contents(o, (bt[2],))), it))
        if o.kind == 'dict':
            val = None
            ok = True
            for op, args, ctx, g in o.records:
                if op != 'setitem':
                    ok = False
                    break
                k = self.deobj(args[0])
                if k is key:
                    # guards of the record are relative to its own context
                    if len(ctx) > len(self.ctx) or ctx != self.ctx[:len(ctx)]:
                        gg = g
                    else:
                        gg = restrict(g, st.alive) if ctx == self.ctx else VTRUE
                    val = args[1] if val is None else ite(gg, args[1], val)
                elif k.leaf() and k.term[0] in ('s', 'c') and it[0] in ('s', 'c'):
                    continue
                else:
                    ok = False
                    break
            if ok and val is not None:
                return val
        if o.kind == 'list' and it[0] == 'c' and it[1].denominator == 1:
            c = as_term(self._contents(o, ()))
            n = int(it[1])
            if c[0] == 'mut' and not c[3] and -len(c[2]) <= n < len(c[2]) and len(o.init) == len(c[2]) and not o.records:
                return o.init[n]
            return leaf(mk_sub(c, it))
        if o.kind == 'array' and o.records:
            op, args, ctx, g = o.records[-1]
            if op == 'setitem' and self.deobj(args[0]) is key and ctx == self.ctx[:len(ctx)] and \
                    (restrict(g, st.alive) is VTRUE):
                return args[1]
        return leaf(mk_sub(as_term(self._contents(o, (bt[2],))), it))

    def setitem(self, b, i, v, st, frame, node):
        if not v.leaf():
            # leaving an element as it is, is not a store
            g = self._changed(b, i, v, st)
            if g is not VTRUE:
                if g is VFALSE:
                    return
                old = st.alive
                st.alive = vand(old, g)
                if st.alive is not VFALSE:
                    self.setitem(b, i, restrict(v, st.alive), st, frame, node)
                st.alive = old
                return
        elif not st.alive.leaf() and v.leaf() and numeric(v.term) and any(a[0] == 'nonneg' for a in atoms_of(st.alive)):
            cur = self.snap(self.getitem(b, i, st))
            if cur.leaf() and numeric(cur.term):
                old = st.alive
                st.alive = strict(old, t_add(cur.term, v.term, -1))
                self._setitem(b, i, v, st, frame, node)
                st.alive = old
                return
        self._setitem(b, i, v, st, frame, node)

    def _setitem(self, b, i, v, st, frame, node):
        if b.leaf() and b.term[0] == 'obj' and b.term[1] == 'o':
            self._record(b, 'setitem', (i, v), st)
            return
        self.ext_skip = b.term if b.leaf() else None
        bt = as_term(self.snap(b))
        self.ext_skip = None
        self.emit('setitem', (bt, as_term(self.snap(i)), as_term(self.snap(v))), st, frame, node)
        self._ext_record(b, 'setitem', (self.snap(i), self.snap(v)), st)

    def _changed(self, b, i, v, st):
        x = self.snap(v)
        if x.leaf() or x.size > LIMIT:
            return VTRUE
        k = as_term(self.snap(i))
        if not any(t[0] == 'sub' and t[2] == k for t in leaves_of(x)):
            return VTRUE
        cur = self.snap(self.getitem(b, i, st))
        if not cur.leaf() or cur.term not in leaves_of(x):
            return VTRUE
        return map_leaves(x, lambda t: VFALSE if t == cur.term else VTRUE)

    def setattr(self, b, attr, v, st, frame, node):
        for t in leaves_of(b):
            if b.leaf():
                st.heap[(t, attr)] = v
        self.emit('setattr', (as_term(self.snap(b)), ('s', attr), as_term(self.snap(v))), st, frame, node)

    def getattr(self, b, attr, st, frame):
        def f(t):
            if (t, attr) in st.heap:
                return st.heap[(t, attr)]
            if t[0] == 'g':
                return leaf(('g', canon_global(t[1] + '.' + attr)))
            if attr == 'T':
                return leaf(('call', ('m', 'transpose'), (self._plain(t),), ()))
            if t[0] == 'sym' and t[1] in ('self', 'cls') and frame.cls is not None:
                c = self._class_const(frame.cls, attr)
                if c is not None:
                    return c
            base = self._plain(t) if t[0] == 'obj' else t
            ver = st.ver.get(t, ())
            if ver:
                base = ('ver', base, ver)
            return leaf(('attr', base, attr))
        return map_leaves(b, f) if b.size <= LIMIT else f(as_term(b))

    def _class_const(self, cls, attr):
        for c in self.project.mro(cls):
            if attr in c.consts:
                return self._literal(c.consts[attr])
        return None

    def _literal(self, node):
        if is_literal(node):
            return self.ev(node, State({}, {}, VTRUE, {}), None)
        return None

    # ----------------------------------------------------------- expressions

    def cond(self, node, st, frame):
        return truth(self.deobj(self.ev(node, st, frame)))

    def ev(self, node, st, frame):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            self.unsupported.append((type(node).__name__, getattr(node, 'lineno', 0)))
            return leaf(('unknown', type(node).__name__))
        return m(node, st, frame)

    def e_Constant(self, n, st, frame):
        v = n.value
        if v is None:
            return VNONE
        if isinstance(v, bool):
            return VTRUE if v else VFALSE
        if isinstance(v, (int, float)):
            return leaf(num(v))
        if isinstance(v, str):
            return leaf(('s', v))
        if isinstance(v, bytes):
            return leaf(('bytes', v))
        if v is Ellipsis:
            return leaf(('g', 'Ellipsis'))
        return leaf(('unknown', repr(v)))

    def e_Name(self, n, st, frame):
        if n.id in st.env:
            return st.env[n.id]
        # enclosing frames of closures
        f = frame
        if f is not None and getattr(f, 'closure_env', None) is not None and n.id in f.closure_env:
            return f.closure_env[n.id]
        if frame is not None:
            r = self.project.lookup(frame.module, n.id)
            if r is not None:
                return self._global(r)
            if n.id not in BUILTINS and self._undefined(n, frame):
                return leaf(('g', 'undefined.' + n.id))
        return leaf(('g', n.id))

    @staticmethod
    def _undefined(n, frame):
        """No assignment to the name precedes this use in the function."""
        f = frame.func.node
        loops = [x for x in ast.walk(f) if isinstance(x, (ast.For, ast.While)) and
                 x.lineno <= n.lineno <= getattr(x, 'end_lineno', x.lineno)]
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id == n.id and not isinstance(x.ctx, ast.Load) or \
                    isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == n.id or \
                    isinstance(x, ast.ExceptHandler) and x.name == n.id or \
                    isinstance(x, ast.arg) and x.arg == n.id or \
                    isinstance(x, ast.alias) and (x.asname or x.name.split('.')[0]) == n.id:
                if not hasattr(x, 'lineno') or x.lineno <= n.lineno or \
                        any(l.lineno <= x.lineno <= l.end_lineno for l in loops):
                    return False
        # a variable of an enclosing function
        return True

    def _global(self, r):
        if r[0] == 'func':
            return leaf(('g', 'F:' + r[1].module.name + ':' + r[1].qualname))
        if r[0] == 'class':
            return leaf(('g', 'C:' + r[1].qualname))
        if r[0] == 'module':
            return leaf(('g', r[1].name))
        if r[0] == 'const':
            lit = self._literal(r[1].consts[r[2]])
            if lit is not None:
                return lit
            return leaf(('g', r[1].name + '.' + r[2]))
        return leaf(('g', canon_global(r[1])))

    def e_Attribute(self, n, st, frame):
        b = self.ev(n.value, st, frame)
        if b.leaf() and b.term[0] == 'g':
            name = b.term[1]
            if name.startswith('C:'):
                return leaf(('g', name + '.' + n.attr))
            if not name.startswith('F:'):
                r = self.project.resolve_dotted(name + '.' + n.attr)
                return self._global(r)
        return self.getattr(b, n.attr, st, frame)

    def e_Subscript(self, n, st, frame):
        b = self.ev(n.value, st, frame)
        i = self.index(n.slice, st, frame)
        return self.getitem(b, i, st)

    def index(self, node, st, frame):
        if isinstance(node, ast.Slice):
            return self.e_Slice(node, st, frame)
        if isinstance(node, ast.Tuple):
            return self.tup([self.index(x, st, frame) for x in node.elts])
        return self.ev(node, st, frame)

    def e_Slice(self, n, st, frame):
        parts = [VNONE if x is None else self.deobj(self.ev(x, st, frame)) for x in (n.lower, n.upper, n.step)]
        return lift(lambda a, b, c: leaf(('slice', NONE if a == ZERO else a, b, NONE if c == ONE else c)), *parts)

    def tup(self, vs):
        vs = list(vs)
        n = 1
        for v in vs:
            n *= v.size
        if n == 1:
            return leaf(('tuple',) + tuple(v.term for v in vs))
        return lift(lambda *ts: leaf(('tuple',) + ts), *vs)

    def e_Tuple(self, n, st, frame):
        return self.tup([self.ev(x, st, frame) for x in n.elts])

    def e_List(self, n, st, frame):
        return self.new('list', tuple(self.ev(x, st, frame) for x in n.elts), st)

    def e_Set(self, n, st, frame):
        return self.new('set', tuple(self.ev(x, st, frame) for x in n.elts), st)

    def e_Dict(self, n, st, frame):
        d = self.new('dict', (), st)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self._record(d, 'update', (self.ev(v, st, frame),), st)
            else:
                self._record(d, 'setitem', (self.ev(k, st, frame), self.ev(v, st, frame)), st)
        return d

    def e_Starred(self, n, st, frame):
        return lift(lambda t: leaf(('star', t)), self.deobj(self.ev(n.value, st, frame)))

    def e_IfExp(self, n, st, frame):
        c = restrict(self.cond(n.test, st, frame), st.alive)
        if c is VTRUE:
            return self.ev(n.body, st, frame)
        if c is VFALSE:
            return self.ev(n.orelse, st, frame)
        old = st.alive
        st.alive = vand(old, c)
        a = self.ev(n.body, st, frame)
        st.alive = vand(old, vnot(c))
        b = self.ev(n.orelse, st, frame)
        st.alive = old
        return choose(c, a, b)

    def e_BoolOp(self, n, st, frame):
        old = st.alive
        isand = isinstance(n.op, ast.And)
        acc = None
        conds = VTRUE
        vals = []
        for x in n.values:
            st.alive = vand(old, conds)
            v = self.ev(x, st, frame)
            c = truth(self.deobj(v))
            vals.append((v, c))
            conds = vand(conds, c if isand else vnot(c))
        st.alive = old
        out = vals[-1][0]
        if all(self._boolish(v) for v, _ in vals):
            out = vals[-1][1]
            for v, c in reversed(vals[:-1]):
                out = vand(c, out) if isand else vor(c, out)
            return out
        for v, c in reversed(vals[:-1]):
            out = ite(c, out, v) if isand else ite(c, v, out)
        return out

    @staticmethod
    def _boolish(v):
        return all(t in (TRUE, FALSE) for t in leaves_of(v))

    def e_UnaryOp(self, n, st, frame):
        if isinstance(n.op, ast.Not):
            return vnot(self.cond(n.operand, st, frame))
        v = self.deobj(self.ev(n.operand, st, frame))
        if isinstance(n.op, ast.USub):
            return lift(lambda a: leaf(t_neg(a)), v)
        if isinstance(n.op, ast.UAdd):
            return v
        return lift(lambda a: leaf(('op', '~', a)), v)

    def e_BinOp(self, n, st, frame):
        a = self.ev(n.left, st, frame)
        b = self.ev(n.right, st, frame)
        if isinstance(n.op, ast.BitOr) and a.leaf() and a.term[0] == 'obj' and self._objkind(a) == 'set':
            c = self._copy(self.objs[a.term[2]], a, st)
            self._record(c, 'update', (b,), st)
            return c
        return self.arith(type(n.op).__name__, self.deobj(a), self.deobj(b))

    def arith(self, op, a, b):
        return lift(lambda x, y: leaf(arith_term(op, x, y)), a, b)

    def e_Compare(self, n, st, frame):
        vals = [self.deobj(self.ev(n.left, st, frame))]
        for c in n.comparators:
            vals.append(self.deobj(self.ev(c, st, frame)))
        r = VTRUE
        for k, op in enumerate(n.ops):
            r = vand(r, self.compare(type(op).__name__, vals[k], vals[k + 1]))
        return r

    def compare(self, op, a, b):
        if op == 'Lt':
            return lift(cmp_lt, a, b)
        if op == 'Gt':
            return lift(lambda x, y: cmp_lt(y, x), a, b)
        if op == 'LtE':
            return vnot(lift(lambda x, y: cmp_lt(y, x), a, b))
        if op == 'GtE':
            return vnot(lift(cmp_lt, a, b))
        if op == 'Eq':
            return lift(cmp_eq, a, b)
        if op == 'NotEq':
            return vnot(lift(cmp_eq, a, b))
        if op in ('Is', 'IsNot'):
            def f(x, y):
                if y == NONE:
                    return cmp_isnone(x)
                if x == NONE:
                    return cmp_isnone(y)
                return cmp_eq(x, y)
            r = lift(f, a, b)
            return r if op == 'Is' else vnot(r)
        if op == 'In':
            return lift(cmp_in, a, b)
        if op == 'NotIn':
            return vnot(lift(cmp_in, a, b))
        return leaf(('unknown', op))

    def e_Lambda(self, n, st, frame):
        names = self._params(n)
        self.lamdepth += 1
        x = st.copy()
        x.alive = VTRUE
        for i, p in enumerate(names):
            x.env[p] = leaf(('bound', self.lamdepth, i))
        save = self.ctx
        v = self.snap(self.ev(n.body, x, frame))
        self.ctx = save
        self.lamdepth -= 1
        c = Closure(n, frame)
        c.env = dict(st.env)
        c.term = ('lambda', len(names), as_term(v))
        self.closures[c.id] = c
        return leaf(('obj', 'closure', c.id))

    def e_JoinedStr(self, n, st, frame):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(leaf(('s', v.value)))
            else:
                x = self.deobj(self.ev(v.value, st, frame))
                spec = v.format_spec
                if spec is not None:
                    sp = self.deobj(self.ev(spec, st, frame))
                    x = lift(lambda a, b: leaf(('fmt', b, a)), x, sp)
                parts.append(x)
        return lift(lambda *ts: leaf(mk_concat(ts)), *parts) if parts else leaf(('s', ''))

    def e_FormattedValue(self, n, st, frame):
        return self.ev(n.value, st, frame)

    def e_Yield(self, n, st, frame):
        v = VNONE if n.value is None else self.ev(n.value, st, frame)
        self.emit('yield', (as_term(self.snap(v)),), st, frame, n)
        return VNONE

    def e_NamedExpr(self, n, st, frame):
        v = self.ev(n.value, st, frame)
        self.assign(n.target, v, st, frame)
        return v

    # comprehensions

    def _comp(self, gens, st, frame, fin):
        """Runs fin(state) inside the generators' loops; returns ctx/guard info."""
        saved_ctx = self.ctx
        x = st.copy()
        base = st.alive
        x.alive = base
        first = True
        g = base
        for gen in gens:
            it = self.ev(gen.iter, x, frame)
            pushes, guard, elem = self.iterate(it, x)
            for p in pushes:
                self.ctx = self.ctx + ((g, p),)
                g = VTRUE
            x.alive = guard
            self.assign(gen.target, elem, x, frame)
            for c in gen.ifs:
                x.alive = vand(x.alive, self.cond(c, x, frame))
            g = x.alive
        fin(x)
        self.ctx = saved_ctx

    def e_ListComp(self, n, st, frame):
        o = self.new('list', (), st)

        lit = None
        if len(n.generators) == 1 and not n.generators[0].ifs:
            it = self.ev(n.generators[0].iter, st, frame)
            lit = self._literal_items(it)
        if lit is not None:
            x = st.copy()
            vals = []
            for v in lit:
                self.assign(n.generators[0].target, v, x, frame)
                vals.append(self.ev(n.elt, x, frame))
            return self.new('list', tuple(vals), st)

        def fin(x):
            v = self.ev(n.elt, x, frame)
            self._record(o, 'append', (v,), x)
        self._comp(n.generators, st, frame, fin)
        return o

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st, frame):
        o = self.new('set', (), st)

        def fin(x):
            v = self.ev(n.elt, x, frame)
            self._record(o, 'add', (v,), x)
        self._comp(n.generators, st, frame, fin)
        return o

    def e_DictComp(self, n, st, frame):
        o = self.new('dict', (), st)

        def fin(x):
            k = self.ev(n.key, x, frame)
            v = self.ev(n.value, x, frame)
            self._record(o, 'setitem', (k, v), x)
        self._comp(n.generators, st, frame, fin)
        return o

    # ----------------------------------------------------------------- calls

    def e_Call(self, n, st, frame):
        f = n.func
        # super().m(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == 'super':
            return self._super(f.attr, n, st, frame)
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, st, frame)
            return self._method(b, f.attr, n, st, frame)
        fv = self.ev(f, st, frame)
        return self._call_value(fv, n, st, frame)

    def _args(self, n, st, frame):
        args = []
        for a in n.args:
            args.append(self.ev(a, st, frame))
        kws = []
        for k in n.keywords:
            kws.append((k.arg or '**', self.ev(k.value, st, frame)))
        return args, kws

    def _super(self, name, n, st, frame):
        args, kws = self._args(n, st, frame)
        cls = frame.cls
        owner = frame.func.cls if frame.func else None
        m = None
        if cls is not None and owner is not None:
            mro = self.project.mro(cls)
            if owner in mro:
                for c in mro[mro.index(owner) + 1:]:
                    if name in c.methods:
                        m = c.methods[name]
                        break
        me = leaf(('sym', 'self'))
        if m is not None and self._inlinable(m, frame, args, kws):
            return self._inline(m, cls, [me] + args, kws, st, frame, n)
        t = leaf(('g', 'super.' + name))
        if m is None:
            return self._opaque(t, args, kws, st, frame, n)
        args, kws = self._canon_args(m, [me] + args, kws, 1)
        kws = self._with_state(m, cls, me, kws, st)
        r = self._opaque(t, args, kws, st, frame, n, impure=bool(self.project.mod_attrs(m, cls)))
        self._havoc(m, cls, me, st, self.last_call)
        return r

    def _with_state(self, m, cls, me, kws, st):
        kws = list(kws)
        for a in sorted(self.project.read_attrs(m, cls)):
            if (me.term, a) in st.heap:
                kws.append(('@' + a, st.heap[(me.term, a)]))
        return kws

    def _inlinable(self, func, frame, args, kws):
        if func.qualname in self.opaque or func.name in self.opaque:
            return False
        if func.abstract:
            return False
        if func.key in self.policy:
            return False
        if any(isinstance(d, str) and d not in ('staticmethod', 'classmethod') and d for d in func.decorators):
            return False
        if func in frame.nodes or frame.stackdepth >= self.MAXDEPTH:
            return False
        for a in args:
            if any(t[0] == 'star' for t in leaves_of(a)):
                return False
        if any(k == '**' for k, _ in kws):
            return False
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(func.node)):
            return False
        a = func.node.args
        if a.vararg and len(args) > len(self._params(func.node)):
            return False
        return True

    def _bind(self, func_node, args, kws, st, frame, dframe):
        names = self._params(func_node)
        env = {}
        a = func_node.args
        if len(args) > len(names):
            if a.vararg is None:
                return None
        for nme, v in zip(names, args):
            env[nme] = v
        kwonly = [k.arg for k in a.kwonlyargs]
        for k, v in kws:
            if k in names or k in kwonly:
                env[k] = v
            elif a.kwarg is None:
                return None
        defaults = a.defaults
        for nme, d in zip(names[len(names) - len(defaults):], defaults):
            if nme not in env:
                env[nme] = self.ev(d, State({}, {}, VTRUE, {}), dframe)
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if k.arg not in env and d is not None:
                env[k.arg] = self.ev(d, State({}, {}, VTRUE, {}), dframe)
        for nme in names:
            if nme not in env:
                return None
        if a.vararg:
            env[a.vararg.arg] = self.tup(args[len(names):])
        if a.kwarg:
            env[a.kwarg.arg] = leaf(('mut', 'list', (), ()))
        return env

    def _inline(self, func, cls, args, kws, st, frame, n, closure=None):
        nf = Frame(func, cls, func.module, frame)
        env = self._bind(func.node, args, kws, st, frame, nf)
        if env is None:
            return self._opaque(leaf(('g', 'F:' + func.module.name + ':' + func.qualname)), args, kws, st, frame, n)
        self.inlined.append(func)
        return self._run_inline(nf, func.node, env, st)

    def _run_inline(self, nf, node, env, st):
        before = st.alive
        inner = State(env, st.heap, st.alive, st.ver)
        nf.exit_heap = None
        saved_br, saved_co = self._breaks, self._continues
        self._breaks, self._continues = [], []
        self.block(node.body, inner, nf)
        self._breaks, self._continues = saved_br, saved_co
        if not inner.raised and inner.alive is not VFALSE:
            self._return(inner, nf, VNONE)
        if inner.raised and nf.ret is None:
            st.raised = True
            return VNONE
        if nf.exit_heap is not None:
            st.heap = nf.exit_heap
            st.ver = nf.exit_ver
        # heap writes made on the returning paths; alive is what returned,
        # except that raising paths leave the guard unchanged
        st.alive = before
        if nf.ret is None:
            return VNONE
        return restrict(nf.ret, before)

    def _havoc(self, func, cls, me, st, call):
        def after(t, a):
            n = tid(t)
            T.AFTER[n] = t
            return leaf(('after', ('c', Fraction(n)), ('s', a)))
        for a in self.project.mod_attrs(func, cls):
            st.heap[(me.term, a)] = map_leaves(call, lambda t: after(t, a))
        for a in self.project.deep_attrs(func, cls):
            v = st.heap.get((me.term, a))
            bs = leaves_of(v) if v is not None else [('attr', me.term, a)]
            for b in bs:
                st.ver[b] = st.ver.get(b, ()) + (func.name,)
                for k in list(st.heap):
                    if k[0] == b:
                        del st.heap[k]

    def _bump(self, key):
        n = self.fresh.get(key, 0)
        self.fresh[key] = n + 1
        return n

    def _call_value(self, fv, n, st, frame):
        args, kws = self._args(n, st, frame)
        if not fv.leaf():
            # a choice between callables
            if fv.size <= 6:
                return self._choice_call(fv, args, kws, st, frame, n)
            return self._opaque(fv, args, kws, st, frame, n)
        return self._call_term(fv.term, args, kws, st, frame, n)

    def _choice_call(self, fv, args, kws, st, frame, n):
        if fv.leaf():
            return self._call_term(fv.term, args, kws, st, frame, n)
        c = atomv(fv.atom)
        old = st.alive
        st.alive = vand(old, c)
        a = self._choice_call(fv.hi, args, kws, st, frame, n)
        st.alive = vand(old, vnot(c))
        b = self._choice_call(fv.lo, args, kws, st, frame, n)
        st.alive = old
        return ite(c, a, b)

    def _call_term(self, t, args, kws, st, frame, n):
        if t[0] == 'obj' and t[1] == 'closure':
            c = self.closures[t[2]]
            if isinstance(c.node, ast.Lambda):
                nf = Frame(None, frame.cls, frame.module, frame)
                nf.nodes = frame.nodes
                x = st.copy()
                x.env = dict(c.env)
                for p, v in zip(self._params(c.node), args):
                    x.env[p] = v
                for k, v in kws:
                    x.env[k] = v
                return self.ev(c.node.body, x, c.frame)
            if c.node in [getattr(f, 'node', None) for f in frame.nodes if f is not None]:
                return self._opaque(leaf(('g', 'local:recursive')), args, kws, st, frame, n)
            nf = Frame(_FakeFunc(c.node, c.frame), c.frame.cls, c.frame.module, frame)
            env0 = self._bind(c.node, args, kws, st, frame, nf)
            if env0 is not None:
                env = dict(st.env) if c.frame is frame or c.frame in self._frames(frame) else {}
                env.update(env0)
                self.inlined.append(nf.func)
                return self._run_inline(nf, c.node, env, st)
        if t[0] == 'g':
            name = t[1]
            if name.startswith('F:'):
                func = self._func_of(name)
                if func is not None:
                    if func.cls is not None and func.classmethod:
                        args = [leaf(('g', 'C:' + func.cls.qualname))] + args
                    if self._inlinable(func, frame, args, kws):
                        return self._inline(func, func.cls, args, kws, st, frame, n)
                    return self._opaque_func(func, args, kws, st, frame, n)
            if name.startswith('C:'):
                return self._construct(name, args, kws, st, frame, n)
            return self._builtin(name, args, kws, st, frame, n)
        return self._opaque(leaf(t), args, kws, st, frame, n)

    def _frames(self, frame):
        out = []
        while frame is not None:
            out.append(frame)
            frame = frame.parent
        return out

    def _func_of(self, name):
        _, mod, qn = name.split(':', 2)
        return self.project.find_func(mod + ':' + qn)

    def _construct(self, name, args, kws, st, frame, n):
        qn = name[2:]
        cls = [c for c in self.project.all_classes() if c.qualname == qn]
        if not cls and '.' in qn:
            # ClassName.method or ClassName.Inner
            head, _, meth = qn.rpartition('.')
            owners = [c for c in self.project.all_classes() if c.qualname == head]
            if owners:
                m = self.project.method(owners[0], meth)
                if m is not None:
                    if m.classmethod:
                        args = [leaf(('g', 'C:' + head))] + args
                    if self._inlinable(m, frame, args, kws):
                        return self._inline(m, owners[0], args, kws, st, frame, n)
                    return self._opaque_func(m, args, kws, st, frame, n)
        if cls:
            init = self.project.method(cls[0], '__init__')
            if init is not None:
                args, kws = self._canon_args(init, [leaf(('sym', 'self'))] + args, kws, drop=1)
        return self._opaque(leaf(('g', name)), args, kws, st, frame, n)

    def _opaque_func(self, func, args, kws, st, frame, n):
        drop = 1 if (func.cls is not None and func.classmethod) else 0
        a, k = self._canon_args(func, args, kws, drop)
        q = func.qualname
        return self._opaque(leaf(('g', q)), a, k, st, frame, n)

    def _canon_args(self, func, args, kws, drop=0):
        """Positional and keyword arguments to one canonical keyword form."""
        for a in args:
            if any(t[0] == 'star' for t in leaves_of(a)):
                return args[drop:], kws
        names = self._params(func.node)
        if len(args) > len(names) or any(k == '**' for k, _ in kws):
            return args[drop:], kws
        d = dict(zip(names, args))
        for k, v in kws:
            d[k] = v
        defaults = func.node.args.defaults
        dmap = dict(zip(names[len(names) - len(defaults):], defaults))
        out = []
        # where both sides have the function with the same parameters, what a
        # call leaves out is filled in; elsewhere, what equals a default is
        # left out
        fill = id(func.node) in self.project.common_nodes
        if fill:
            for k, v in dmap.items():
                if k not in d and is_literal(v):
                    d[k] = self.ev(v, State({}, {}, VTRUE, {}), None)
        for k in sorted(d):
            if k in names[:drop]:
                continue
            if not fill and k in dmap and is_literal(dmap[k]):
                lit = self.ev(dmap[k], State({}, {}, VTRUE, {}), None)
                if lit is d[k]:
                    continue
            pos = names.index(k) if k in names else -1
            out.append(('%02d' % pos if pos >= 0 else k, d[k]))
        return [], out

    def _method(self, b, name, n, st, frame):
        # method on a class/module
        if b.leaf() and b.term[0] == 'g':
            g = b.term[1]
            if g.startswith('C:'):
                return self._call_term(('g', g + '.' + name), *self._args(n, st, frame), st=st, frame=frame, n=n)
            if not g.startswith('F:'):
                r = self.project.resolve_dotted(g + '.' + name)
                return self._call_term(self._global(r).term, *self._args(n, st, frame), st=st, frame=frame, n=n)
        args, kws = self._args(n, st, frame)
        if b.leaf() and b.term[0] == 'sym' and b.term[1] in ('self', 'cls') and frame.cls is not None:
            # attribute holding a callable?
            if (b.term, name) in st.heap:
                return self._call_term_v(st.heap[(b.term, name)], args, kws, st, frame, n)
            m = self.project.method(frame.cls, name)
            if m is not None:
                if m.static:
                    full = args
                elif b.term[1] == 'cls' and not m.classmethod:
                    full = args
                else:
                    full = [leaf(('sym', 'cls' if m.classmethod else 'self'))] + args
                if not self.project.overridden(frame.cls, name) and self._inlinable(m, frame, full, kws):
                    return self._inline(m, frame.cls, full, kws, st, frame, n)
                # opaque method of self: what it reads of self is an argument
                drop = 0 if m.static else 1
                a2, k2 = self._canon_args(m, full, kws, drop)
                if not m.static:
                    k2 = self._with_state(m, frame.cls, b, k2, st)
                r = self._opaque(leaf(('g', 'self.' + name)), a2, k2, st, frame, n, impure=bool(self.project.mod_attrs(m, frame.cls)))
                self._havoc(m, frame.cls, b, st, self.last_call)
                return r
            # inner class constructor: self.Token(...)
            for c in self.project.mro(frame.cls):
                if name in c.inner:
                    return self._construct('C:' + c.inner[name].qualname, args, kws, st, frame, n)
        if b.leaf() and b.term[0] == 'attr' and b.term[1] in (('sym', 'self'), ('sym', 'cls')) and frame.cls is not None:
            for c in self.project.mro(frame.cls):
                if b.term[2] in c.inner:
                    return self._call_term(('g', 'C:' + c.inner[b.term[2]].qualname + '.' + name), args, kws, st, frame, n)
        return self._value_method(b, name, args, kws, st, frame, n)

    def _call_term_v(self, fv, args, kws, st, frame, n):
        if fv.leaf():
            return self._call_term(fv.term, args, kws, st, frame, n)
        return self._opaque(fv, args, kws, st, frame, n)

    def _value_method(self, b, name, args, kws, st, frame, n):
        isobj = b.leaf() and b.term[0] == 'obj' and b.term[1] == 'o'
        if isobj:
            o = self.objs[b.term[2]]
            if name in LIST_MUT or (name == 'pop' and o.kind in ('list', 'dict', 'set')):
                if name == 'extend' and args:
                    self._record(b, 'extend', (args[0],), st)
                    return VNONE
                if name == 'setdefault' and o.kind == 'dict' and len(args) == 2:
                    k = self.deobj(args[0])
                    present = lift(cmp_in, k, self.deobj(b))
                    old = st.alive
                    st.alive = vand(old, vnot(present))
                    self._record(b, 'setitem', (args[0], args[1]), st)
                    st.alive = old
                    return self.getitem(b, args[0], st)
                before = self.deobj(b) if name == 'pop' else None
                self._record(b, name, tuple(args) + tuple(leaf(('tuple', ('s', k), as_term(self.snap(v)))) for k, v in kws), st)
                if name == 'pop':
                    return lift(lambda *ts: leaf(('call', ('m', 'pop'), ts, ())), before, *[self.deobj(a) for a in args])
                return VNONE
            if name in ('items', 'keys', 'values') and o.kind == 'dict':
                return leaf(('call', ('m', name), (b.term,), ()))
            if name == 'copy' and not args:
                return self._copy(o, b, st)
            if name == 'get' and o.kind == 'dict' and args:
                k = self.deobj(args[0])
                present = lift(cmp_in, k, self.deobj(b))
                return ite(present, self.getitem(b, args[0], st), args[1] if len(args) > 1 else VNONE)
        if name == 'get' and 1 <= len(args) <= 2 and not kws and not (frame.func.cls and 'get' in frame.func.cls.methods):
            # d.get(k, x)  ==  d[k] if k in d else x
            present = lift(cmp_in, self.deobj(args[0]), self.deobj(b))
            return ite(present, self.getitem(b, args[0], st), args[1] if len(args) > 1 else VNONE)
        if name in ('startswith', 'endswith') and len(args) == 1 and not kws:
            # s.startswith((x, y))  ==  s.startswith(x) or s.startswith(y)
            a = self.deobj(args[0])
            if a.leaf() and a.term[0] == 'tuple':
                r = VFALSE
                for x in a.term[1:]:
                    r = vor(r, truth(self._value_method(b, name, [from_term(x)], [], st, frame, n)))
                return r
        if name == 'format' and b.leaf() and b.term[0] == 's':
            return self._format(b.term[1], args, kws)
        if name == 'norm' and not kws and len(args) == 1 and args[0] == leaf(num(2)):
            # x.norm(2)  ==  sqrt((x ** 2).sum())
            square = lift(lambda t: leaf(t_pow(t, num(2))), self.deobj(b))
            total = self._value_method(square, 'sum', [], [], st, frame, n)
            return lift(lambda t: leaf(('call', ('g', 'sqrt'), (t,), ())), total)
        if name == 'astype' or name in METHOD_FUNCS:
            pass
        if b.leaf() and not (b.term[0] == 'sym' and b.term[1] == 'self'):
            # attributes of the receiver set here, as far as the callee reads them
            mine = [(k[1], v) for k, v in st.heap.items() if k[0] == b.term]
            if mine:
                reads = self.project.reads_of_name(name)
                kws = list(kws) + [('@' + a, v) for a, v in mine if a in reads]
        if name in LIST_MUT | {'pop'} and self._is_ext(b):
            self.ext_skip = b.term
            r = self._opaque(leaf(('m', name)), [b] + args, kws, st, frame, n)
            self.ext_skip = None
            self._ext_record(b, name, tuple(self.snap(a) for a in args), st)
            return r
        bv = b
        if b.leaf() and b.term[0] != 'obj' and st.ver.get(b.term):
            bv = leaf(('ver', b.term, st.ver[b.term]))
        r = self._opaque(leaf(('m', name)), [bv] + args, kws, st, frame, n)
        if name in self.project.mutating_method_names() and b.leaf():
            st.ver[b.term] = st.ver.get(b.term, ()) + (name,)
            for k in list(st.heap):
                if k[0] == b.term:
                    del st.heap[k]
        return r

    def _copy(self, o, b, st):
        c = Obj(o.kind, o.init, o.ctx, o.guard)
        c.records = list(o.records)
        self.objs[c.id] = c
        return leaf(('obj', 'o', c.id))

    def _format(self, fmt, args, kws):
        parts = []
        auto = 0
        kw = dict(kws)
        try:
            for lit, field, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    parts.append(leaf(('s', lit)))
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = kw[field]
                v = self.deobj(v)
                if spec:
                    v = lift(lambda a: leaf(('fmt', ('s', spec), a)), v)
                parts.append(v)
        except (IndexError, KeyError, ValueError):
            return leaf(('unknown', 'format ' + fmt))
        if not parts:
            return leaf(('s', ''))
        vals = [as_term(p) for p in parts]
        n = 1
        for p in parts:
            n *= p.size
        if n > LIMIT:
            return leaf(mk_concat(vals))
        return lift(lambda *ts: leaf(mk_concat(ts)), *parts)

    def _opaque(self, fv, args, kws, st, frame, n, impure=False):
        f = as_term(self.snap(fv))
        a = [as_term(self.snap(x)) for x in args]
        k = sorted((kk, as_term(self.snap(x))) for kk, x in kws) if False else \
            tuple(sorted(((kk, as_term(self.snap(x))) for kk, x in kws), key=lambda p: p[0]))
        if not k:
            r = self._bounds(f, a)
            if r is not None:
                return r
        if f == ('g', 'open'):
            mode = a[1] if len(a) > 1 else dict(k).get('mode', ('s', 'r'))
            if mode[0] == 's' and len(a) in (1, 2):
                a = [a[0], ('s', mode[1].replace('t', ''))]
                k = tuple(x for x in k if x[0] != 'mode')
        t = ('call', f, tuple(a), tuple(k))
        lifted = self._lifted(fv, args, kws)
        self.last_call = leaf(t) if lifted is None else lifted
        name = callee(t)
        short = name.split('.')[-1]
        if not any(name == i or name.startswith(i) for i in IGNORED):
            self.events.append(Event('call', (t,), st.alive, self.ctx, n,
                                     '%s:%d' % (frame.module.relpath, getattr(n, 'lineno', 0)) if frame else ''))
        if short in FRESH or impure:
            return leaf(('imp', t, ('c', Fraction(self._bump(t)))))
        if name in ARRAY_CTORS:
            o = Obj('array', t, self.ctx, st.alive)
            self.objs[o.id] = o
            return leaf(('obj', 'o', o.id))
        return leaf(t) if lifted is None else lifted

    @staticmethod
    def _bounds(f, a):
        """Elementwise limits and choices in one form."""
        if f in (('g', 'tensor.switch'), ('g', 'numpy.where'), ('g', 'tensor.where')) and len(a) == 3 and a[0][0] == 'call' and \
                a[0][1] in (('g', 'tensor.neq'), ('g', 'tensor.le'), ('g', 'tensor.eq')) and len(a[0][2]) == 2:
            # the opposite condition, with the alternatives changed round
            x, y = a[0][2]
            if a[0][1][1] == 'tensor.eq':
                if ZERO not in (x, y):
                    return None
                return leaf(('call', ('g', 'tensor.switch'), (y if x == ZERO else x, a[2], a[1]), ()))
            c = ('g', 'tensor.eq'), (x, y)
            if a[0][1][1] == 'tensor.le':
                c = ('g', 'tensor.lt'), (y, x)
            a = [('call',) + c + ((),), a[2], a[1]]
            return Interp._bounds(('g', 'tensor.switch'), a) or leaf(('call', ('g', 'tensor.switch'), tuple(a), ()))
        if f in (('m', 'max'), ('m', 'min')) and len(a) == 1 and a[0][0] == 'mut' and a[0][1] == 'list':
            return leaf(('call', ('g', f[1]), tuple(a), ()))
        if f == ('m', 'clip') and len(a) == 3:
            x = a[0]
            if a[1] != NONE:
                x = bound('max', x, a[1])
            if a[2] != NONE:
                x = bound('min', x, a[2])
            return leaf(x)
        if f[0] == 'g' and f[1] in ('tensor.maximum', 'tensor.minimum') and len(a) == 2:
            return leaf(bound(f[1][7:10], a[0], a[1]))
        if f == ('g', 'tensor.switch') and len(a) == 3 and a[0][0] == 'call' and a[0][1] in (('g', 'tensor.lt'), ('g', 'tensor.le')) \
                and len(a[0][2]) == 2 and a[1] != a[2] and set(a[1:]) == set(a[0][2]):
            return leaf(bound('min' if a[1] == a[0][2][0] else 'max', a[1], a[2]))
        return None

    def _lifted(self, fv, args, kws):
        """A call over small conditional arguments, as a choice of calls."""
        vs = [fv] + list(args) + [x for _, x in kws]
        snaps = [self.snap(v) for v in vs]
        if all(v.leaf() for v in snaps):
            return None
        total = 1
        for v in snaps:
            total *= v.size
        if total > LIMIT:
            return None
        na = len(args)
        kk = [x for x, _ in kws]

        def mk(*ts):
            return leaf(('call', ts[0], tuple(ts[1:1 + na]),
                         tuple(sorted(zip(kk, ts[1 + na:]), key=lambda p: p[0]))))
        return lift(mk, *snaps)

    # --------------------------------------------------------------- builtin

    def _builtin(self, name, args, kws, st, frame, n):
        last = name.split('.')[-1]
        lib = name.startswith(('numpy.', 'tensor.', 'math.', 'theano.tensor.'))
        if lib and last in ARITH and len(args) == 2 and not kws:
            return self.arith(ARITH[last], self.deobj(args[0]), self.deobj(args[1]))
        if lib and last in UNARY and len(args) == 1 and not kws:
            return lift(lambda a: leaf(t_pow(a, num(UNARY[last]))), self.deobj(args[0]))
        if lib and last in ('neg', 'negative') and len(args) == 1:
            return lift(lambda a: leaf(t_neg(a)), self.deobj(args[0]))
        if lib and not kws and len(args) == 1 and last in ('exp', 'log', 'log1p', 'expm1'):
            # expm1(x) == exp(x) - 1, log1p(x) == log(1 + x)
            return lift(lambda a: leaf(t_log(t_add(num(1), a)) if last == 'log1p' else t_log(a) if last == 'log' else
                                       t_add(t_exp(a), num(-1)) if last == 'expm1' else t_exp(a)), self.deobj(args[0]))
        if lib and last == 'logaddexp' and not kws and len(args) == 2:
            return lift(lambda a, b: leaf(t_log(t_add(t_exp(a), t_exp(b)))), self.deobj(args[0]), self.deobj(args[1]))
        if name in ('math.ceil', 'math.floor') and len(args) == 1 and not kws:
            return lift(lambda a: leaf(('call', ('g', 'int'), (('call', ('g', 'numpy.' + last), (a,), ()),), ())), self.deobj(args[0]))
        if name in ('int', 'float') and len(args) == 1 and not kws and \
                any(t[0] == 'c' and (name == 'float' or t[1].denominator == 1) for t in leaves_of(args[0])):
            return lift(lambda a: leaf(a if a[0] == 'c' and (name == 'float' or a[1].denominator == 1)
                                       else ('call', ('g', name), (a,), ())), self.deobj(args[0]))
        if (lib or name == 'abs') and last in SAMEFUNC and len(args) == 1 and not kws:
            return lift(lambda a: leaf(('call', ('g', SAMEFUNC[last]), (a,), ())), self.deobj(args[0]))
        if lib and last in METHOD_FUNCS and args and name not in ARRAY_CTORS:
            return self._opaque(leaf(('m', last)), args, kws, st, frame, n)
        if lib and last == 'cast' and len(args) == 2:
            return self._opaque(leaf(('m', 'astype')), args, kws, st, frame, n)
        if name.startswith('tensor.') and last in ('gt', 'ge', 'lt', 'le', 'eq', 'neq') and len(args) == 2:
            a, b = self.deobj(args[0]), self.deobj(args[1])
            if last in ('gt', 'ge'):
                a, b = b, a
                last = {'gt': 'lt', 'ge': 'le'}[last]

            def mk(x, y):
                if last in ('eq', 'neq') and tid(x) > tid(y):
                    x, y = y, x
                return leaf(('call', ('g', 'tensor.' + last), (x, y), ()))
            return lift(mk, a, b)
        if name == 'numpy.isnan' and len(args) == 1:
            return lift(lambda a: atomv(('truthy', ('call', ('g', 'isnan'), (a,), ()))), self.deobj(args[0]))
        if name == 'math.isnan' and len(args) == 1:
            return lift(lambda a: atomv(('truthy', ('call', ('g', 'isnan'), (a,), ()))), self.deobj(args[0]))
        if name == 'numpy.isneginf' and len(args) == 1:
            return lift(lambda a: atomv(('truthy', ('call', ('g', 'isneginf'), (a,), ()))), self.deobj(args[0]))
        if name in ('numpy.asarray', 'numpy.asanyarray') and len(args) == 1 and not kws and args[0].leaf() \
                and args[0].term[0] == 'sym' and args[0].term[1] in T.ARRAY_SYMS:
            return args[0]
        if name in ('list', 'dict', 'set') and not args:
            o = self.new(name, (), st)
            for k, v in kws:
                self._record(o, 'setitem', (leaf(('s', k)), v), st)
            return o
        if name in ('collections.OrderedDict', 'OrderedDict') and not args and not kws:
            return self.new('dict', (), st)
        if name == 'len' and len(args) == 1:
            r = self._count(args[0])
            if r is not None:
                return r
            v = self.deobj(args[0])

            def mklen(t):
                if t[0] == 'tuple':
                    return leaf(num(len(t) - 1))
                if t[0] == 's':
                    return leaf(num(len(t[1])))
                if t[0] == 'mut' and t[1] == 'list' and not t[3]:
                    return leaf(num(len(t[2])))
                if t[0] == 'call' and t[1] == ('g', 'numpy.arange') and len(t[2]) == 2:
                    return leaf(t_add(t[2][1], t[2][0], -1))
                return leaf(('call', ('g', 'len'), (t,), ()))
            return lift(mklen, v)
        if name == 'hash' and len(args) == 1 and not kws:
            # what has a hash value is immutable, so a copy of all of it is the same
            v = self.deobj(args[0])
            if any(t[0] == 'sub' and t[2] == ('slice', NONE, NONE, NONE) for t in leaves_of(v)):
                args = [map_leaves(v, lambda t: leaf(t[1] if t[0] == 'sub' and t[2] == ('slice', NONE, NONE, NONE) else t))]
        if name == 'numpy.count_nonzero' and len(args) == 1 and not kws:
            v = self.deobj(args[0])
            if all(t in (TRUE, FALSE) for t in leaves_of(v)):
                return self._value_method(v, 'sum', [], [], st, frame, n)
        if name == 'sum' and len(args) == 1 and not kws:
            r = self._sum(args[0], st)
            if r is not None:
                return r
        if name in ('any', 'all') and len(args) == 1:
            r = self._anyall(name, args[0], st)
            if r is not None:
                return r
        if name == 'isinstance' and len(args) == 2:
            def f(a, b):
                if b[0] == 'tuple':
                    b = ('tuple',) + tuple(sorted(b[1:], key=tid))
                return atomv(('isinst', a, b))
            return lift(f, self.deobj(args[0]), self.deobj(args[1]))
        if name == 'hasattr' and len(args) == 2:
            return lift(lambda a, b: atomv(('truthy', ('call', ('g', 'hasattr'), (a, b), ()))), self.deobj(args[0]), self.deobj(args[1]))
        if name == 'getattr' and len(args) == 2 and args[1].leaf() and args[1].term[0] == 's':
            return self.getattr(args[0], args[1].term[1], st, frame)
        if name == 'setattr' and len(args) == 3 and args[1].leaf() and args[1].term[0] == 's':
            self.setattr(args[0], args[1].term[1], args[2], st, frame, n)
            return VNONE
        if name == 'bool' and len(args) == 1:
            return truth(self.deobj(args[0]))
        if name == 'str' and len(args) == 1 and args[0].leaf() and args[0].term[0] == 's':
            return args[0]
        if name in ('list', 'tuple', 'iter') and len(args) == 1:
            v = args[0]
            if v.leaf() and v.term[0] == 'obj' and v.term[1] == 'o' and name == 'list' and self._objkind(v) == 'list':
                return self._copy(self.objs[v.term[2]], v, st)
        if (name in ('min', 'max') and len(args) in (2, 3) or name in EXTREMES and len(args) == 2) and not kws:
            vs = [self.deobj(x) for x in args]
            n = 1
            for v in vs:
                n *= 2 * v.size
            if n <= LIMIT:
                v = vs[0]
                for x in vs[1:]:
                    v = vextreme(EXTREMES.get(name, name), v, x)
                return v
        if name in ('enumerate', 'zip', 'reversed', 'range') and not any(k == '**' for k, _ in kws):
            # keep container references: they matter to iteration
            a = tuple(as_term(x) for x in args)
            if name == 'range':
                a = tuple(as_term(self.snap(x)) for x in args)
            k = tuple(sorted((kk, as_term(v)) for kk, v in kws))
            return leaf(('call', ('g', name), a, k))
        if name == 'print':
            return VNONE
        if name == 'copy.copy' and len(args) == 1 and args[0].leaf() and args[0].term[0] == 'obj' and args[0].term[1] == 'o':
            return self._copy(self.objs[args[0].term[2]], args[0], st)
        return self._opaque(leaf(('g', name)), args, kws, st, frame, n)

    def _sum(self, v, st):
        if not v.leaf() or v.term[0] != 'obj' or v.term[1] != 'o':
            return None
        o = self.objs[v.term[2]]
        if o.kind != 'list' or any(r[0] != 'append' for r in o.records) or self._carried(o):
            return None
        acc = leaf(ZERO)
        for x in o.init:
            acc = self.arith('Add', acc, self.deobj(x))
        n = len(o.ctx)
        for op, args, ctx, g in o.records:
            e = self.deobj(args[0])
            if all(t in (TRUE, FALSE) for t in leaves_of(e)):
                e = ite(e, leaf(ONE), leaf(ZERO))
            rel = ctx[n:]
            if not rel:
                g2 = restrict(g, o.guard)
                acc = self.arith('Add', acc, ite(g2, e, leaf(ZERO)))
                continue
            s_ = ite(g, e, leaf(ZERO))
            for k in range(len(rel) - 1, -1, -1):
                gg, L = rel[k]
                if k == 0:
                    gg = restrict(gg, o.guard)
                s_ = mk_sum(L, self.snap(s_))
                if gg is not VTRUE:
                    s_ = ite(gg, s_, leaf(ZERO))
            acc = self.arith('Add', acc, s_)
        return acc

    def _count(self, v):
        """The length of a list of selected elements is the number of times the
        condition holds."""
        if not v.leaf() or v.term[0] != 'obj' or v.term[1] != 'o':
            return None
        o = self.objs[v.term[2]]
        if o.kind != 'list' or o.init or len(o.records) != 1 or o.records[0][0] != 'append' or self._carried(o):
            return None
        op, args, ctx, g = o.records[0]
        rel = ctx[len(o.ctx):]
        if len(rel) != 1 or g is VTRUE or restrict(rel[0][0], o.guard) is not VTRUE:
            return None
        return mk_sum(rel[0][1], self.snap(ite(g, leaf(ONE), leaf(ZERO))))

    def _anyall(self, name, v, st):
        if not v.leaf() or v.term[0] != 'obj' or v.term[1] != 'o':
            return None
        o = self.objs[v.term[2]]
        if o.kind != 'list' or any(r[0] != 'append' for r in o.records) or self._carried(o):
            return None
        n = len(o.ctx)
        acc = VFALSE
        for x in o.init:
            c = truth(self.deobj(x))
            acc = vor(acc, c if name == 'any' else vnot(c))
        for op, args, ctx, g in o.records:
            c = truth(self.deobj(args[0]))
            if name == 'all':
                c = vnot(c)
            rel = ctx[n:]
            c = vand(g, c) if rel else vand(restrict(g, o.guard), c)
            for k in range(len(rel) - 1, -1, -1):
                gg, L = rel[k]
                c = atomv(('exists', L, as_term(self.snap(c))))
                c = vand(restrict(gg, o.guard) if k == 0 else gg, c)
            acc = vor(acc, c)
        return acc if name == 'any' else vnot(acc)


class _FakeFunc(object):
    def __init__(self, node, frame):
        self.node = node
        self.cls = frame.func.cls if frame.func else None
        self.module = frame.module
        self.name = node.name
        self.qualname = node.name
        self.key = ''


# ------------------------------------------------------------- term builders

def canon_global(name):
    if name.startswith('theano.tensor'):
        name = 'tensor' + name[len('theano.tensor'):]
    if name in ('numpy.int', 'numpy.float', 'numpy.bool', 'numpy.str', 'numpy.object'):
        # aliases of the builtin types in the versions of NumPy that have them
        return name[6:]
    return name


def is_literal(node):
    if isinstance(node, ast.Constant):
        return True
    if isinstance(node, ast.UnaryOp):
        return is_literal(node.operand)
    if isinstance(node, ast.BinOp):
        return is_literal(node.left) and is_literal(node.right)
    if isinstance(node, (ast.Tuple,)):
        return all(is_literal(x) for x in node.elts)
    return False


STRLIKE = {'s', 'concat', 'fmt', 'tuple', 'mut', 'bytes'}


def arith_term(op, a, b):
    if op == 'Add':
        if a[0] in STRLIKE or b[0] in STRLIKE:
            return mk_concat((a, b))
        return t_add(a, b)
    if op == 'Sub':
        return t_add(a, b, -1)
    if op == 'Mult':
        if a[0] in ('s', 'mut', 'tuple', 'concat') or b[0] in ('s', 'mut', 'tuple', 'concat'):
            if not (a[0] == 'mut' and a[1] == 'array') and not (b[0] == 'mut' and b[1] == 'array'):
                x, y = (a, b) if a[0] in ('s', 'mut', 'tuple', 'concat') else (b, a)
                return ('rep', x, y)
        return t_mul(a, b)
    if op == 'Div':
        return t_div(a, b)
    if op == 'Pow':
        return t_pow(a, b)
    if op == 'Mod' and a[0] == 's':
        return percent_format(a[1], b)
    if op == 'Mod' and a[0] == 'c' and b[0] == 'c' and b[1] != 0:
        return ('c', a[1] % b[1])
    if op == 'FloorDiv' and a[0] == 'c' and b[0] == 'c' and b[1] != 0:
        return ('c', a[1] // b[1])
    if op == 'FloorDiv' and a[0] not in STRLIKE and b[0] not in STRLIKE:
        # the ways to round a division up: -(-a // b) and (a + b - 1) // b
        p = to_poly(a)
        if p and all(c < 0 for c in p.values()):
            return t_neg(('call', ('g', 'int'), (('call', ('g', 'numpy.ceil'), (t_div(t_neg(a), b),), ()),), ()))
        rest = t_add(t_add(a, b, -1), num(1))
        q = to_poly(rest)
        if len(q) < len(p) and len(p) > 1 and len(q) == len(p) - (1 if b[0] == 'c' else 2):
            return ('call', ('g', 'int'), (('call', ('g', 'numpy.ceil'), (t_div(rest, b),), ()),), ())
        # (a - 1) // b is one less than a / b rounded up
        if len(p) > 1 and p.get(()) == -1:
            return t_add(('call', ('g', 'int'), (('call', ('g', 'numpy.ceil'), (t_div(t_add(a, num(1)), b),), ()),), ()), num(-1))
    if op in ('BitAnd', 'BitOr', 'BitXor') and tid(a) > tid(b):
        a, b = b, a
    return ('op', op, a, b)


def percent_format(fmt, b):
    args = list(b[1:]) if b[0] == 'tuple' else [b]
    out = []
    i = 0
    lit = ''
    while i < len(fmt):
        c = fmt[i]
        if c == '%':
            if i + 1 < len(fmt) and fmt[i + 1] == '%':
                lit += '%'
                i += 2
                continue
            j = i + 1
            while j < len(fmt) and fmt[j] not in 'diouxXeEfFgGcrsa':
                j += 1
            if j >= len(fmt) or not args:
                return ('op', 'Mod', ('s', fmt), b)
            spec = fmt[i + 1:j + 1]
            if lit:
                out.append(('s', lit))
                lit = ''
            x = args.pop(0)
            out.append(x if spec in ('s', 'd') else ('fmt', ('s', spec), x))
            i = j + 1
        else:
            lit += c
            i += 1
    if lit:
        out.append(('s', lit))
    return mk_concat(tuple(out))


def mk_concat(parts):
    out = []
    for p in parts:
        if p[0] == 'call' and p[1] == ('g', 'str') and len(p[2]) == 1:
            p = p[2][0]
        if p[0] == 'concat':
            items = p[1:]
        else:
            items = (p,)
        for q in items:
            if q == ('s', ''):
                continue
            if q[0] == 'c' and out and out[-1][0] == 's' and False:
                q = ('s', str(q[1]))
            if out and out[-1][0] == 's' and q[0] == 's':
                out[-1] = ('s', out[-1][1] + q[1])
            elif out and out[-1][0] == 'tuple' and q[0] == 'tuple':
                out[-1] = out[-1] + q[1:]
            elif out and out[-1][0] == 'mut' and q[0] == 'mut' and out[-1][1] == 'list' == q[1] and not out[-1][3] and not q[3]:
                out[-1] = ('mut', 'list', out[-1][2] + q[2], ())
            else:
                out.append(q)
    if not out:
        return ('s', '')
    if len(out) == 1 and out[0][0] in STRLIKE:
        return out[0]
    return ('concat',) + tuple(out)


def disjoint(i, j):
    """Whether two keys or indices certainly address different items."""
    if i[0] in ('s', 'c') and j[0] in ('s', 'c'):
        return i != j
    if i[0] == j[0] == 'slice' and i[3] == j[3] == NONE:
        return i[2] != NONE and i[2] == j[1] or j[2] != NONE and j[2] == i[1]
    return False


def mk_sub(b, i):
    b = T.unaffected(b, i)
    while b[0] == 'mut' and b[1] == 'array' and b[3] and b[3][-1][0] == 'setitem' and disjoint(b[3][-1][1][0], i):
        b = b[:3] + (b[3][:-1],) if len(b[3]) > 1 else b[2]
    if b[0] == 'tuple' and i[0] == 'c' and i[1].denominator == 1:
        n = int(i[1])
        if -len(b) + 1 <= n < len(b) - 1:
            return b[1:][n]
    if b[0] == 'mut' and b[1] == 'list' and not b[3] and i[0] == 'c' and i[1].denominator == 1:
        n = int(i[1])
        if -len(b[2]) <= n < len(b[2]):
            return b[2][n]
    if b[0] == 'dictval':
        for k, v in b[1]:
            if k == i:
                return v
    if i[0] == 'idx' and i[1][0] == 'L' and i[1][1] == b:
        return ('elem', i[1])
    # len(x)-1 index from the end
    if i[0] == 'poly':
        d = t_add(i, ('call', ('g', 'len'), (b,), ()), -1)
        if d[0] == 'c' and d[1] < 0:
            return ('sub', b, d)
    if i[0] == 'slice':
        lo, hi, stp = i[1:]
        n = ('call', ('g', 'len'), (b,), ())
        if lo[0] == 'poly':
            d = t_add(lo, n, -1)
            if d[0] == 'c' and d[1] < 0:
                lo = d
        if hi[0] == 'poly':
            d = t_add(hi, n, -1)
            if d[0] == 'c' and d[1] < 0:
                hi = d
        if hi[0] == 'call' and hi[1] == ('g', 'min') and len(hi[2]) == 2 and n in hi[2] and lo == NONE and stp == NONE:
            hi = hi[2][1] if hi[2][0] == n else hi[2][0]
        if hi == n:
            hi = NONE
        if lo == n and stp == NONE and b[0] == 'mut' and b[1] == 'list':
            return ('mut', 'list', (), ())
        if b[0] == 'tuple' and stp == NONE and (lo == NONE or lo[0] == 'c') and (hi == NONE or hi[0] == 'c'):
            return ('tuple',) + b[1:][(None if lo == NONE else int(lo[1])):(None if hi == NONE else int(hi[1]))]
        i = ('slice', lo, hi, stp)
    return ('sub', b, i)


def canon_records(recs):
    """Orders mutually exclusive (or commuting) records canonically and joins
    equal ones."""
    steps = []

    def commute(r, q):
        if vand(truth_term(r[3]), truth_term(q[3])) is VFALSE:
            return True
        return r[0] == q[0] == 'setitem' and disjoint(r[1][0], q[1][0])
    for r in recs:
        i = len(steps)
        while i > 0 and all(commute(r, q) for q in steps[i - 1]):
            i -= 1
        if i < len(steps):
            steps[i].append(r)
        else:
            steps.append([r])
    out = []
    for s in steps:
        groups = {}
        for op, a, ctx, g in s:
            groups.setdefault((op, len(a), ctx), []).append((a, truth_term(g)))
        for k in sorted(groups, key=tid):
            op, n, ctx = k
            rs = groups[k]
            if len(rs) > 1 and all(vand(p[1], q[1]) is VFALSE for i, p in enumerate(rs) for q in rs[:i]):
                rs = [join_records(rs, n)]
            d = {}
            for a, g in rs:
                d[a] = vor(d[a], g) if a in d else g
            for a in sorted(d, key=tid):
                out.append((op, expose_args(a, d[a]), ctx, as_term(d[a])))
    return out


def join_records(rs, n):
    """Records under exclusive guards as one whose arguments are choices."""
    total = VFALSE
    vals = None
    for a, g in rs:
        vs = [from_term(x) for x in a]
        vals = vs if vals is None else [ite(g, x, y) for x, y in zip(vs, vals)]
        total = vor(total, g)
    return tuple(as_term(constrain(v, total)) for v in vals), total


def expose_args(a, g):
    if g is VTRUE or g is VFALSE:
        return a
    return tuple(as_term(constrain(from_term(x), g)) if x[0] == 'v' else x for x in a)


def mk_list(init, recs, kind='list'):
    init = list(init)
    recs = canon_records(recs)
    out = []
    for op, a, ctx, g in recs:
        if op == 'add':
            op = 'append'
        if op in ('extend', 'update') and len(a) == 1 and a[0][0] == 'mut' and a[0][1] in ('list', 'set', kind) and not ctx and g == TRUE:
            for x in a[0][2]:
                if out:
                    out.append(('append', (x,), (), TRUE))
                else:
                    init.append(x)
            out.extend(a[0][3])
            continue
        if op == 'extend' and len(a) == 1 and a[0][0] == 'mut' and a[0][1] == 'list' and not a[0][3]:
            for x in a[0][2]:
                out.append(('append', (x,), ctx, g))
            continue
        if op == 'append' and not ctx and g == TRUE and not out:
            init.append(a[0])
            continue
        if op == 'insert' and not ctx and g == TRUE and not out and a and a[0] == ZERO:
            init.insert(0, a[1])
            continue
        out.append((op, a, ctx, g))
    return ('mut', kind, tuple(init), tuple(out))


def mk_dict(recs):
    if all(op == 'setitem' and not ctx and a[0][0] in ('s', 'c', 'g', 'b', 'none') and g == TRUE for op, a, ctx, g in recs):
        d = {}
        for op, a, ctx, g in recs:
            d[a[0]] = a[1]
        return ('dictval', tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))
    return ('mut', 'dict', (), tuple(canon_records(recs)))


def truth_term(t):
    return truth(from_term(t))


def depends(x, L):
    return contains(x, lambda t: t[0] in ('elem', 'idx', 'mu') and len(t) > 1 and t[1] == L)


def mk_sum(L, v):
    """The sum of v over the iterations of L: invariant conditions, terms and
    factors move out."""
    if not v.leaf():
        if not depends(v.atom, L):
            return ite(atomv(v.atom), mk_sum(L, v.hi), mk_sum(L, v.lo))
        for a in sorted(atoms_of(v), key=T._rank):
            if not depends(a, L):
                c = atomv(a)
                return ite(c, mk_sum(L, restrict(v, c)), mk_sum(L, restrict(v, vnot(c))))
        return leaf(('sum', L, as_term(v)))
    if v.term == ZERO:
        return v
    acc = ZERO
    for m, c in to_poly(v.term).items():
        out = tuple((a, e) for a, e in m if not depends(a, L))
        inn = tuple((a, e) for a, e in m if depends(a, L))
        s = ('sum', L, from_poly({inn: Fraction(1)}))
        acc = t_add(acc, t_mul(from_poly({out: c}), s))
    return leaf(acc)
