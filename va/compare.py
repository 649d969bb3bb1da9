"""Decides whether two versions of a function have the same observable
behaviour, by comparing their value-flow summaries.

`specification` is the reviewed reference under /verif/spec/ref, `code` is the
tree under analysis.  A function that exists in both is an opaque symbol inside
every other function (each is compared on its own), so a difference is located
in the function that contains it; a function that exists only on one side (an
extracted or dissolved helper) is inlined.
"""

import ast
import builtins
import copy
import re
import time
from collections import Counter
from fractions import Fraction

from .terms import *
from . import terms as T
from .interp import Interp, callee, truth_term, Unsupported
from .effects import Effects, IMPURE

NOOP = ('s', '<nothing>')

# Library routines that never stand for one another: seeing one where the
# specification has another is a difference, not a different spelling.
DISTINCT = {'min', 'max', 'log', 'log10', 'log2', 'log1p', 'exp', 'floor', 'ceil', 'abs', 'argmax', 'argmin', 'mean', 'prod',
            'round', 'sqrt', 'isnan', 'isinf', 'isneginf', 'isposinf', 'sum', 'zeros', 'ones', 'zeros_like', 'ones_like',
            'len', 'int', 'str', 'float', 'reversed', 'sorted', 'list', 'tuple', 'tanh', 'sigmoid', 'relu', 'softmax',
            'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'cumsum', 'sin', 'cos', 'neq', 'eq', 'lt', 'le', 'startswith',
            'endswith', 'not', 'shuffle', 'sort', 'copy', 'switch', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16',
            'uint32', 'uint64', 'float16', 'float32', 'float64', 'bool_'}


# names that no expression without one of the listed ones is equivalent to
BOUND = {'min', 'max', 'minimum', 'maximum', 'clip', 'switch', 'where', 'relu', 'elu', 'fmin', 'fmax', 'sort', 'sorted'}
EXPS = {'exp', 'log', 'expm1', 'log1p', 'sigmoid', 'tanh', 'softplus', 'softmax', 'logsoftmax', 'elu', 'selu', 'hard_sigmoid'}
EXTENT = {'size', 'shape', 'len', 'ndim', 'flatten', 'ravel'}
SORTS = {'sort', 'sorted', 'argsort', 'lexsort', 'argmax', 'argmin', 'unique'}
SPLITS = {'split', 'rsplit', 'partition', 'rpartition', 'splitlines', 'findall', 'find', 'index', 'match', 'search', 'finditer', 'rfind'}
DIGITS = {'isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum', 'match', 'search', 'fullmatch', 'ValueError'}
TILES = {'tile', 'repeat', 'concatenate', 'stack', 'alloc', 'ones', 'zeros', 'full', 'outer', 'dot', 'ones_like', 'zeros_like', 'broadcast_to', 'T', 'dimshuffle', 'hstack', 'vstack'}
UNLIKE = {'set': {'set', 'frozenset', 'unique', 'keys', 'sorted'}, 'argsort': SORTS, 'lexsort': SORTS, 'clip': BOUND, 'minimum': BOUND, 'maximum': BOUND, 'elu': {'exp', 'expm1', 'selu'} | BOUND - {'relu'}, 'selu': EXPS | BOUND,
          'softplus': EXPS, 'hard_sigmoid': EXPS | BOUND, 'expm1': EXPS, 'logsoftmax': EXPS, 'softsign': {'abs'},
          'split': SPLITS, 'rsplit': SPLITS, 'partition': SPLITS, 'rpartition': SPLITS, 'splitlines': SPLITS | {'readline', 'readlines'},
          'isdigit': DIGITS, 'isdecimal': DIGITS, 'isnumeric': DIGITS, 'isalpha': DIGITS, 'isalnum': DIGITS,
          'pop': {'pop', 'popleft', 'popitem', 'remove', 'get', 'next'},
          'size': EXTENT, 'casefold': {'casefold', 'lower'}, 'title': {'capitalize', 'title'}, 'capitalize': {'title', 'capitalize'},
          'swapcase': set(), 'truncate': set(), 'nan_to_num': {'isnan', 'where'},
          'permutation': {'shuffle', 'permutation', 'choice'}, 'median': {'median', 'sort', 'sorted', 'quantile', 'percentile'},
          'tile': TILES, 'repeat': TILES,
          'std': {'std', 'var', 'mean', 'sum'}, 'var': {'std', 'var', 'mean', 'sum'}}


def known(name, spec_all, code=None):
    if name == 'zip' and code is not None and 'set' in code.names and known('set', spec_all):
        return True
    if name == 'pop' and (spec_all.slices or ('s', 'delete') in spec_all.consts):
        return False
    return name in DISTINCT or name in UNLIKE and not (UNLIKE[name] - {name}) & (spec_all.names | spec_all.attrs)


def literal(node):
    try:
        return ast.literal_eval(node)
    except (ValueError, SyntaxError):
        return None


class Diff(object):
    def __init__(self, aspect, spec, code, where, sure, why=''):
        self.aspect = aspect
        self.spec = spec
        self.code = code
        self.where = where
        self.sure = sure
        self.why = why


class Result(object):
    def __init__(self, key):
        self.key = key
        self.status = 'equal'        # equal / differs / undecided / missing
        self.diffs = []
        self.note = ''
        self.aspects = 0
        self.events = 0
        self.where = ''


# ------------------------------------------------------------------ aspects

PURE = {'set', 'frozenset', 'list', 'dict', 'tuple', 'sorted', 'reversed', 'len', 'min', 'max', 'sum', 'abs', 'round', 'range', 'zip',
        'enumerate', 'map', 'filter', 'str', 'int', 'float', 'bool', 'bytes', 'repr', 'any', 'all', 'isinstance', 'issubclass', 'hasattr'}



def root_of(t):
    """A printable name of the object an effect acts on."""
    path = []
    n = 0
    while n < 40:
        n += 1
        if t[0] == 'attr':
            path.append(t[2])
            t = t[1]
        elif t[0] == 'sub':
            t = t[1]
        elif t[0] in ('ver', 'imp'):
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'm' and t[2]:
            t = t[2][0]
        elif t[0] == 'elem':
            t = t[1]
        elif t[0] == 'L':
            t = t[1]
        else:
            break
    if t[0] == 'sym':
        return '.'.join([t[1]] + list(reversed(path))[:1])
    if t[0] == 'g':
        return t[1]
    if t[0] == 'call':
        return '.'.join([callee(t) + '()'] + list(reversed(path))[:1])
    return t[0]


class Steps(object):
    """An ordered list of effects on one object, canonical up to the order of
    mutually exclusive alternatives."""

    def __init__(self):
        self.steps = []     # [ {labels: V}, covered guard, where list ]

    def add(self, labels, guard, value, where):
        """On every path an effect gets the position it has among the effects
        of that path, so that code shared by alternatives and code repeated in
        each of them give the same list."""
        i = len(self.steps)
        while True:
            clash = VFALSE if i == 0 else vand(self.steps[i - 1][1], guard)
            if i == 0 or clash is guard:
                self._put(i, labels, guard, value, where)
                return
            if clash is not VFALSE:
                self._put(i, labels, clash, value, where)
                guard = vand(guard, vnot(self.steps[i - 1][1]))
            i -= 1

    def _put(self, i, labels, guard, value, where):
        if i == len(self.steps):
            self.steps.append([{}, VFALSE, []])
        s = self.steps[i]
        s[0][labels] = ite(guard, value, s[0].get(labels, leaf(NOOP)))
        s[1] = vor(s[1], guard)
        s[2].append(where)

    def key(self):
        return tuple(x for d, cov, wh in self.steps for x in sorted(d.items(), key=lambda kv: tid(kv[0])))

    def places(self):
        return [wh for d, cov, wh in self.steps for x in d]


IGNORED_KW = {'help', 'metavar', 'title', 'description', 'name', 'on_unused_input', 'profile'}


def strip_kw(t):
    if t[0] == 'call' and t[3]:
        kw = tuple((k, v) for k, v in t[3] if k not in IGNORED_KW)
        if len(kw) != len(t[3]):
            return ('call', t[1], t[2], kw)
    return t


def as_v(t, g):
    return ite(g, t, leaf(NOOP))


class Aspects(object):
    def __init__(self, summary, project, effects):
        self.items = {}
        self.where = {}
        self.summary = summary
        self.unsupported = list(summary.unsupported)
        self.events = 0
        raises = {}
        groups = {}
        discarded = self._discarded(summary)
        evs = []
        carry = []
        for e in summary.events:
            labels = tuple(l for g, l in e.ctx)
            guard = e.guard
            for g, l in e.ctx:
                guard = vand(g, guard)
            if guard is VFALSE:
                continue
            if e.kind == 'raise':
                k = (e.data[0][1], labels)
                raises[k] = vor(raises[k], guard) if k in raises else guard
                self.where.setdefault('raises ' + e.data[0][1], e.where)
            elif e.kind == 'carry':
                carry.append((labels, e.data[0], guard, e.where))
            elif e.kind != 'break':
                evs.append((e, labels, guard))
        assume = {}

        def assumption(labels):
            """No exception has been raised in the loops entered so far."""
            if labels not in assume:
                a = VTRUE
                for (name, ls), g in raises.items():
                    if ls == labels[:len(ls)]:
                        a = vand(a, vnot(g))
                assume[labels] = VTRUE if a is VFALSE else a
            return assume[labels]
        top = assumption(())
        if summary.ret is not None:
            self.items['returned value'] = constrain(summary.ret, top)
        for (b, a), v in summary.attrs.items():
            if contains(b, lambda t: t[0] in ('elem', 'idx')):
                continue
            v = constrain(v, top)
            if v is leaf(('attr', b, a)):
                continue
            self.items['attribute %s.%s' % (show(b)[:80], a)] = v
        for e, labels, guard in evs:
            if e.kind == 'setattr':
                if not contains(e.data[0], lambda t: t[0] in ('elem', 'idx')):
                    self.where['attribute %s.%s' % (show(e.data[0])[:80], e.data[1][1])] = e.where
                    continue
                root = root_of(e.data[0]) + '.' + e.data[1][1]
                term = ('tuple', ('s', 'store'), e.data[0], e.data[1], e.data[2])
            elif e.kind == 'setitem':
                root, term = root_of(e.data[0]), ('tuple', ('s', 'store item'),) + e.data
                if e.data[1][0] == 's':
                    # stores to different keys can change places
                    root += '[%r]' % e.data[1][1]
            elif e.kind == 'delitem' or e.kind == 'delattr':
                root, term = root_of(e.data[0]), ('tuple', ('s', 'delete'),) + e.data
            elif e.kind == 'yield':
                root, term = 'yield', ('tuple', ('s', 'yield'),) + e.data
            elif e.kind == 'call':
                t = e.data[0]
                if not self.observable(t, e, project, effects, discarded):
                    continue
                t = strip_kw(t)
                if t[1][0] == 'm' and t[2]:
                    root = root_of(t[2][0])
                elif t[1][0] == 'g':
                    root = 'self' if t[1][1].startswith('self.') else t[1][1]
                    if root.endswith('.at') and root.startswith('numpy.') and t[2]:
                        # changes its first argument
                        root += ' ' + show(t[2][0])
                else:
                    root = root_of(t[1])
                term = t
            else:
                continue
            self.events += 1
            asm = assumption(labels)
            if vand(guard, asm) is not VFALSE:
                guard = constrain(guard, asm)
            v = constrain(self.expose(leaf(term)), vand(guard, asm))
            groups.setdefault(root, Steps()).add(labels, guard, v, e.where)
        for (name, labels), g in raises.items():
            self.items.setdefault('raises ' + name, [])
            outer = assumption(labels[:-1]) if labels else VTRUE
            if vand(g, outer) is not VFALSE:
                g = constrain(g, outer)
            self.items['raises ' + name].append((labels, g))
        for k in list(self.items):
            if k.startswith('raises '):
                self.items[k] = tuple(sorted(self.items[k], key=lambda x: tid(x[0])))
        self.stepwhere = {}
        for root, s in groups.items():
            self.items['effects on ' + root] = s.key()
            self.where['effects on ' + root] = s.steps[0][2][0]
            self.stepwhere[root] = s.places()
        if carry:
            d = {}
            for labels, t, guard, where in carry:
                asm = assumption(labels)
                if vand(guard, asm) is not VFALSE:
                    guard = constrain(guard, asm)
                k = (labels, leaf(t))
                d[k] = vor(d[k], guard) if k in d else guard
            n = 'collections loops build on'
            self.items[n] = tuple(sorted(((l, as_v(t, g)) for (l, t), g in d.items()), key=lambda x: tid(x)))
            self.where[n] = carry[0][3]
        for p, v in summary.defaults.items():
            self.items['default of ' + p] = v

    @staticmethod
    def expose(v):
        """Moves choices inside the arguments of an effect to the top."""
        if not v.leaf():
            return v
        t = v.term
        if t[0] == 'tuple':
            parts = [from_term(x) for x in t[1:]]
            n = 1
            for p in parts:
                n *= p.size
            if 1 < n <= T.LIMIT:
                return lift(lambda *ts: leaf(('tuple',) + ts), *parts)
        elif t[0] == 'call':
            parts = [from_term(x) for x in t[2]] + [from_term(x) for k, x in t[3]]
            n = 1
            for p in parts:
                n *= p.size
            na = len(t[2])
            ks = [k for k, x in t[3]]
            if 1 < n <= T.LIMIT:
                return lift(lambda *ts: leaf(('call', t[1], ts[:na], tuple(zip(ks, ts[na:])))), *parts)
        return v

    @staticmethod
    def _discarded(summary):
        out = set()
        funcs = [summary.func] + list(summary.inlined)
        for f in funcs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    out.add(id(n.value))
        return out

    @staticmethod
    def observable(t, e, project, effects, discarded):
        name = callee(t)
        f = t[1]
        short = name.split('.')[-1]
        if f[0] == 'm':
            if short in effects.by_name:
                return effects.stores(short) or (id(e.node) in discarded and effects.name_effectful(short))
            if short in IMPURE:
                return True
            # a callable stored in an attribute of self
            if t[2] and t[2][0] == ('sym', 'self'):
                return True
            return id(e.node) in discarded
        if f[0] == 'g':
            if name.startswith('C:'):
                cname = name[2:].split('.')[-1]
                return id(e.node) in discarded
            if name in PURE:
                return False
            if short in effects.by_name:
                return effects.stores(short) or (id(e.node) in discarded and effects.name_effectful(short))
            return short in IMPURE or id(e.node) in discarded
        return True


# --------------------------------------------------------------- vocabulary


def deep_walk(x, seen=None, cols=None, keys=True):
    """walk() that also enters the recurrences of loop variables."""
    cols = set() if cols is None else cols
    stack = [x]
    seen = set() if seen is None else seen
    while stack:
        y = stack.pop()
        if isinstance(y, V):
            if id(y) in seen:
                continue
            seen.add(id(y))
            stack.extend((y.term,) if y.leaf() else (y.atom, y.hi, y.lo))
        elif isinstance(y, tuple):
            if y in seen:
                continue
            seen.add(y)
            if y and isinstance(y[0], str):
                yield y
                if not keys and y[0] == 'call' and y[1] in SORTING and dict(y[3]).get('key', ('',))[0] == 'lambda':
                    stack.extend(y[1:3])
                    continue
                if y[0] == 'col' and len(y) == 2 and y[1][0] == 'c':
                    n = int(y[1][1])
                    if n not in cols:
                        cols.add(n)
                        d = T.COLORS.get(n)
                        if d is not None:
                            stack.append(d[1:])
                elif y[0] == 'after' and len(y) == 3 and y[1][0] == 'c':
                    d = T.AFTER.get(int(y[1][1]))
                    if d is not None:
                        stack.append(d)
            stack.extend(y)


FORMS = {'concat': 'a concatenation', 'rep': 'a repetition', 'sum': 'a sum over a loop',
         'exists': 'a search', 'store': 'a store to a slice', 'mut': 'an index that is a list', 'partial': 'a partial application', 'star': 'an unpacked argument list'}


BUILTIN = set(dir(builtins))
SORTING = (('g', 'sorted'), ('m', 'sort'))


# names of the methods of the specification
PROJECT = set()


class Vocab(object):
    def __init__(self, *xs, keys=True):
        self.names = set()
        self.attrs = set()
        self.consts = set()
        self.unknown = set()
        self.exc = set()
        self.wloops = set()
        self.mutloops = set()
        self.cols = set()
        self.builtin = set()
        self.lambdas = 0
        self.stores = False
        self.undefined = set()
        self.forms = set()
        self.missing = set()
        self.ops = set()
        self.by_number = set()
        self.choices = set()
        self.tests = set()
        self.repeated = False
        self.plus = self.slices = False
        seen, cols, listed, augmented = set(), set(), set(), set()
        for x in xs:
            for t in deep_walk(x, seen, cols, keys):
                tag = t[0]
                if tag in ('eq', 'zero', 'pos', 'nonneg', 'lt', 'in', 'truthy', 'isnone', 'isinst'):
                    self.tests.add(t)
                if tag == 'g' and len(t) == 2:
                    if t[1].startswith('undefined.'):
                        self.undefined.add(t[1].split('.')[-1])
                    self.names.add(t[1].split('.')[-1].split(':')[-1])
                    if t[1] in BUILTIN:
                        self.builtin.add(t[1])
                elif tag == 'm' and len(t) == 2:
                    self.names.add(t[1])
                elif tag == 'attr' and len(t) == 3:
                    self.attrs.add(t[2])
                elif tag in ('c', 's') and len(t) == 2:
                    self.consts.add(t)
                elif tag == 'unknown':
                    self.unknown.add(t)
                elif tag == 'op' and t[1] == 'Mod' or tag in ('lt', 'pos', 'nonneg', 'eq', 'zero', 'truthy') and any(
                        u[0] == 'op' and u[1] == 'FloorDiv' for u in T.walk(t)):
                    self.ops.add('Mod')
                elif tag == 'op' and t[1] == 'FloorDiv':
                    self.ops.add(t[1])
                elif tag == 'isnone' and (t[1][0] == 'sub' or t[1][0] == 'call' and not (t[1][1][0] == 'm' and t[1][1][1] in PROJECT)):
                    self.missing.add(t)
                elif tag in FORMS and tag != 'mut':
                    self.forms.add(tag)
                elif tag == 'exc':
                    self.exc.add(t[1])
                elif tag == 'call' and t[1] in SORTING and dict(t[3]).get('key') == ('g', 'int'):
                    self.by_number.add(t)
                elif tag == 'W':
                    self.wloops.add(t)
                elif tag == 'lambda':
                    self.lambdas += 1
                elif tag == 'poly':
                    self.plus = self.plus or sum(1 for m, c in t[1] if m) > 1
                elif tag == 'slice':
                    self.slices = True
                elif tag == 'after':
                    self.stores = True
                elif tag == 'sub' and t[2][0] == 'mut':
                    listed.add(t)
                elif tag == 'tuple' and len(t) == 5 and t[1] == ('s', 'store item') and t[3][0] == 'slice' and t[2][0] != 'attr':
                    self.forms.add('store')
                elif tag == 'mut' and len(t) == 4:
                    for r in t[3]:
                        if r[0] == 'append' and r[2] and r[1][0][0] == 'v':
                            loops = {l for g, l in r[2]}
                            self.choices.update(a for a in T.atoms_of(r[1][0][1]) if not T.contains(a, lambda u: u[0] in ('elem', 'idx', 'mu') and u[1] in loops))
                    if len(t[3]) == 1 and t[3][0][0] == 'append' and t[3][0][1][0][0] in ('c', 's', 'b', 'none') and t[3][0][3] == TRUE:
                        self.repeated = True
                    for r in t[3]:
                        if r[0] == 'setitem' and r[1][0][0] == 'slice' and not (t[1] == 'ext' and t[2][0] == 'attr'):
                            self.forms.add('store')
                        if r[0] == 'setitem' and r[1][0][0] == 'mut':
                            read = _augments(r[1])
                            augmented.update(read)
                            if not read:
                                self.forms.add('mut')
                elif tag == 'L' and len(t) == 3 and isinstance(t[1], tuple):
                    if t[1] and t[1][0] in ('mut', 'v'):
                        self.mutloops.add(t)
        if listed - augmented:
            self.forms.add('mut')
        self.cols = cols


def _augments(args):
    """The old values, if a store at a list of indices adds to them: that
    counts repeated indices once, so it is no loop over the list."""
    return {t for t in T.walk(args[1]) if t[0] == 'sub' and t[2] == args[0]}


def novelty(code, spec_all, attr_ok, name_ok, written=None):
    """Why the code's form is outside what the comparison understands, or ''."""
    if code.unknown - spec_all.unknown:
        return 'construct outside the value language: %s' % sorted(x[1] for x in code.unknown)[0]
    n = {x for x in code.names - spec_all.names - code.undefined if not known(x, spec_all, code) and (x not in name_ok or x in code.builtin) and
         not (x == 'empty' and not code.stores) and
         not (x == 'random' and not code.cols and not code.names & {'cumsum', 'searchsorted', 'digitize', 'bisect', 'accumulate'})}
    if written is not None:
        # the canonical form of a loop over a slice, without any range in the source
        n -= {'range', 'len'} - written
    if n:
        return 'uses %s, which the specification of this function does not' % ', '.join(sorted(n)[:3])
    a = {x for x in code.attrs - spec_all.attrs if x not in attr_ok and not known(x, spec_all)}
    if a:
        return 'uses attribute %s, unknown to the specification of this class' % ', '.join(sorted(a)[:3])
    if len(code.exc) > len(spec_all.exc):
        return 'exception handling in a form the specification does not have'
    if len(code.wloops) != len(code.wloops & spec_all.wloops):
        return 'an open-ended loop the specification does not have'
    if len(code.mutloops) > len(spec_all.mutloops):
        return 'iterates over a collection it builds itself'
    if len(code.missing) > len(spec_all.missing):
        return 'tests whether an element or a result is None, which the specification does not'
    if 'Mod' in code.ops - spec_all.ops and spec_all.ops | spec_all.names & {'ceil', 'floor', 'divmod'}:
        return 'rounds a division in another way than the specification'
    if code.by_number - spec_all.by_number and {'int', 'str', 'sorted'} <= spec_all.names:
        return 'sorts strings by their numbers, where the specification sorts the numbers'
    moved = code.choices - spec_all.choices
    if moved and moved <= spec_all.tests:
        return 'makes a choice inside a loop that the specification makes outside'
    if code.repeated and not spec_all.repeated and 'rep' in spec_all.forms - code.forms:
        return 'repeats a constant in a loop, where the specification repeats a list'
    new = code.forms - spec_all.forms - ({'sum'} if not spec_all.plus and not spec_all.names & {'sum', 'reduce', 'add'} else set())
    if new:
        return '%s, which the specification does not have' % FORMS[sorted(new)[0]]
    if code.lambdas > spec_all.lambdas:
        return 'a function value the specification does not have'
    return ''


# ------------------------------------------------------------ skipped effects

SAMENESS = {'array_equal', 'allclose', 'isclose', 'any', 'all', 'count_nonzero', 'issubset', 'issuperset', 'is_alive', 'exists', 'isfile',
            'isdir', 'isEnabledFor', 'array_equiv', 'len', 'size', 'bool', 'next', 'isinstance', 'issubclass'}


def _near(v, depth=3):
    out = set()
    stack = [(t, depth) for t in leaves_of(v)]
    while stack:
        t, d = stack.pop()
        if isinstance(t, tuple):
            out.add(t)
            if d:
                stack.extend((u, d - 1) for u in t)
    return out


def _skips(v, w, new):
    """Whether w is v, but does nothing if a new condition holds, that is not
    about the effect being unnecessary."""
    allowed = set(leaves_of(v)) | {NOOP}
    if v.leaf() and v.term == NOOP or not set(leaves_of(w)) <= allowed:
        return False
    near = None
    for a in T.atoms_of(w):
        vocab = Vocab(a)
        if not new(vocab) or vocab.names & SAMENESS or vocab.unknown:
            continue
        if near is None:
            near = _near(v)
        if a[0] == 'zero':
            parts = {b for m, c in T.to_poly(a[1]).items() for b, e in m}
        elif a[0] in ('eq', 'in', 'truthy', 'isnone'):
            parts = set(a[1:])
        else:
            parts = set()
        if parts & near:
            continue
        yes, no = T.restrict(w, T.atomv(a)), T.restrict(w, T.vnot(T.atomv(a)))
        for same, other in ((yes, no), (no, yes)):
            if same is v and other is not v and NOOP in leaves_of(other):
                return True
    return False


def skipped(x, y, new):
    """Effects that the specification always has, but the code only under a
    condition on something that the specification does not know."""
    if not isinstance(x, tuple) or not isinstance(y, tuple) or len(x) != len(y):
        return False
    return any(lx == ly and v is not w and isinstance(v, V) and isinstance(w, V) and _skips(v, w, new)
               for (lx, v), (ly, w) in zip(x, y))


# ------------------------------------------------------------ extent of edits

REMOVED, ADDED = 3, 10


def _silent(s):
    if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert)):
        return True
    if isinstance(s, ast.Expr):
        if isinstance(s.value, ast.Constant):
            return True
        if isinstance(s.value, ast.Call):
            return ast.unparse(s.value.func).startswith(('logging.', 'print', 'sys.stdout.flush'))
    return False


def statements(fn):
    """The simple statements and the headers of compound ones, with the names
    of local variables left out."""
    loc = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            loc.add(n.id)
        elif isinstance(n, ast.arg) and n.arg not in ('self', 'cls'):
            loc.add(n.arg)
    out = Counter()

    class Anonymous(ast.NodeTransformer):
        def visit_Name(self, n):
            return ast.Name('_' if n.id in loc else n.id, n.ctx)

    def text(*xs):
        return ' '.join(ast.unparse(ast.fix_missing_locations(Anonymous().visit(copy.deepcopy(x)))) for x in xs)

    def block(body):
        for s in body:
            if _silent(s):
                continue
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                block(s.body)
            elif isinstance(s, (ast.If, ast.While)):
                out[type(s).__name__ + ' ' + text(s.test)] += 1
                block(s.body)
                block(s.orelse)
            elif isinstance(s, ast.For):
                out['For ' + text(s.target, s.iter)] += 1
                block(s.body)
                block(s.orelse)
            elif isinstance(s, ast.Try):
                out['Try'] += 1
                block(s.body)
                for h in s.handlers:
                    out['Except ' + (text(h.type) if h.type else '')] += 1
                    block(h.body)
                block(s.orelse)
                block(s.finalbody)
            elif isinstance(s, ast.With):
                out['With ' + text(*[i.context_expr for i in s.items])] += 1
                block(s.body)
            else:
                out[text(s)] += 1
    block(fn.body)
    return out


_statements = {}


def rewritten(a, b):
    """Whether more than a few statements of a function have been replaced."""
    c = []
    for s in (a, b):
        t = Counter()
        for f in {id(f.node): f for f in [s.func] + list(s.inlined)}.values():
            if not hasattr(f.node, 'body') or not isinstance(f.node.body, list):
                continue
            if id(f.node) not in _statements:
                _statements[id(f.node)] = (statements(f.node), f.node)
            t += _statements[id(f.node)][0]
        c.append(t)
    return sum((c[0] - c[1]).values()) > REMOVED or sum((c[1] - c[0]).values()) > ADDED


def pinpoint(x, y, out):
    """Collects the smallest differing parts of two values."""
    if x is y or x == y or len(out) > 40:
        return
    if isinstance(x, V) and isinstance(y, V):
        if x.leaf() and y.leaf():
            pinpoint(x.term, y.term, out)
        elif not x.leaf() and not y.leaf() and (x.hi, x.lo) == (y.hi, y.lo):
            pinpoint(x.atom, y.atom, out)
        elif not x.leaf() and not y.leaf() and x.atom == y.atom:
            pinpoint(x.hi, y.hi, out)
            pinpoint(x.lo, y.lo, out)
        else:
            out.append((x, y))
    elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x and x[0] == y[0] \
            and (not isinstance(x[0], str) or x[0] not in ('c', 's', 'b', 'g', 'm', 'sym', 'col', 'after', 'mut')):
        for p, q in zip(x, y):
            pinpoint(p, q, out)
    elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and x and not isinstance(x[0], str) and not isinstance(y[0], str):
        for p, q in zip(x, y):
            pinpoint(p, q, out)
    else:
        out.append((x, y))


def strong(x, y):
    """Two parts that are certainly not spellings of the same thing."""
    if isinstance(x, tuple) and isinstance(y, tuple) and x and y:
        if x[0] == y[0] and x[0] in ('c', 's', 'b', 'sym'):
            return True
        if {x[0], y[0]} == {'pos', 'nonneg'} and x[1] == y[1]:
            return True
        if x[0] == y[0] == 'poly':
            # polynomials have a complete normal form over the same unknowns
            bases = [{b for m, c in T.to_poly(t).items() for b, e in m} for t in (x, y)]
            return bases[1] <= bases[0] and not any(t[0] in ITERATION for b in bases[0] for t in deep_walk(b))
    return isinstance(x, str) and isinstance(y, str)


ITERATION = {'idx', 'elem', 'mu', 'out', 'col', 'L', 'W', 'mut', 'sum', 'after', 'len', 'v'}


# ----------------------------------------------------------------- comparer


class Timeout(Exception):
    pass


class Comparer(object):
    def __init__(self, spec, code):
        self.spec = spec
        self.code = code
        self.eff_spec = Effects(spec)
        self.eff_code = Effects(code, self.eff_spec)
        self.sfun = {f.key: f for f in spec.all_funcs()}
        self.cfun = {f.key: f for f in code.all_funcs()}
        PROJECT.update(f.key.rpartition('.')[2] for f in spec.all_funcs())
        self._moved()
        self.sclasses = {c.key: c for c in spec.all_classes()}
        self.cclasses = {c.key: c for c in code.all_classes()}
        for k, c in self.sclasses.items():
            if k not in self.cclasses:
                cands = [x for x in self.cclasses.values() if x.qualname == c.qualname and x.key not in self.sclasses]
                if len(cands) == 1:
                    self.cclasses[k] = cands[0]
        self._variables = None
        self.common = {k for k in self.sfun if k in self.cfun and self._same_sig(self.sfun[k], self.cfun[k])}
        self.memo = {}
        self.amemo = {}
        self._integers()
        spec.common_nodes = {id(self.sfun[k].node) for k in self.common}
        code.common_nodes = {id(self.cfun[k].node) for k in self.common}
        if code is not spec:
            code.contract = spec
            code.contract_funcs = {id(self.cfun[k].node): self.sfun[k] for k in self.common}
            code.contract_classes = {c.key: c for c in spec.all_classes()}

    def _integers(self):
        """Parameters that every docstring of the specification types as int,
        and the attributes that only such values are stored in."""
        types, stores, returns = {}, {}, {}
        for f in self.sfun.values():
            if not isinstance(f.node, ast.FunctionDef):
                continue
            doc = ast.get_docstring(f.node) or ''
            mine = dict(re.findall(r':type (\w+): *(.*)', doc))
            rt = re.search(r':rtype: *(.*)', doc)
            if not f.abstract:
                returns.setdefault(f.name, set()).add(rt.group(1).strip() if rt else '')
            for p in f.params():
                types.setdefault(p, set()).add(mine.get(p, '').strip())
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    stores.setdefault(n.attr, [])
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        for x in t.elts if isinstance(t, ast.Tuple) else [t]:
                            if isinstance(x, ast.Attribute):
                                stores.setdefault(x.attr, []).append(n.value if x is t else t)
        ints = {p for p, ts in types.items() if ts == {'int'}}
        T.INT_SYMS |= ints
        arrays = {p for p, ts in types.items() if ts and all('ndarray' in x for x in ts)}
        T.ARRAY_SYMS |= arrays
        for a, vs in stores.items():
            if vs and all(isinstance(v, ast.Name) and v.id in arrays or
                          isinstance(v, ast.Call) and ast.unparse(v.func) in ('numpy.array', 'numpy.zeros', 'numpy.ones', 'numpy.asarray') or
                          isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and
                          all(re.fullmatch(r'(numpy\.)?ndarray( of .*)?', x) for x in returns.get(v.func.attr, {''}))
                          for v in vs):
                T.ARRAY_ATTRS.add(a)
        T.INT_METHODS |= {n for n, ts in returns.items() if ts == {'int'}}
        for a, vs in stores.items():
            if vs and all(isinstance(v, ast.Name) and v.id in ints or
                          isinstance(v, ast.Constant) and type(v.value) is int or
                          isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('len', 'int')
                          for v in vs):
                T.INT_ATTRS.add(a)

    def _moved(self):
        """A function or class moved to another module keeps its key."""
        by_q = {}
        for k, f in self.cfun.items():
            by_q.setdefault(f.qualname, []).append(k)
        for k, f in self.sfun.items():
            if k not in self.cfun:
                cands = [c for c in by_q.get(f.qualname, []) if c not in self.sfun]
                if len(cands) == 1:
                    self.cfun[k] = self.cfun[cands[0]]

    @staticmethod
    def _same_sig(a, b):
        x, y = a.node.args, b.node.args
        return len(x.args) == len(y.args) and len(x.kwonlyargs) == len(y.kwonlyargs) and \
            bool(x.vararg) == bool(y.vararg) and bool(x.kwarg) == bool(y.kwarg) and \
            len(x.defaults) == len(y.defaults) and a.static == b.static and a.classmethod == b.classmethod and \
            a.abstract == b.abstract

    # -- summaries

    def aspects(self, side, func, cls, argsyms, policy):
        k = (side, id(func.node), id(cls), policy)
        if k in self.amemo:
            return self.amemo[k]
        project = self.spec if side == 'spec' else self.code
        eff = self.eff_spec if side == 'spec' else self.eff_code
        i = Interp(project, policy=policy)
        i.deadline = time.time() + 20
        s = i.summarize(func, cls, argsyms)
        a = Aspects(s, project, eff)
        self.amemo[k] = a
        return a

    def _policies(self, f, g):
        yield 'modular', frozenset(self.common)
        own = frozenset(k for k in self.common if not self._private(k))
        yield 'private helpers inlined', own
        yield 'inlined', frozenset()

    @staticmethod
    def _private(k):
        n = k.rpartition('.')[2] if '.' in k.partition(':')[2] else k.partition(':')[2]
        return n.startswith('_') and not n.startswith('__')

    def compare(self, key, cls_s=None, cls_c=None):
        k = (key, id(cls_s), id(cls_c))
        if k not in self.memo:
            self.memo[k] = self._compare(key, cls_s, cls_c)
        return self.memo[k]

    def _compare(self, key, cls_s, cls_c):
        r = Result(key)
        f = self.sfun[key]
        g = self.cfun.get(key)
        if g is None and f.cls is not None:
            # moved to a base class
            c = self.cclasses.get(f.cls.key)
            g = self.code.method(c, f.name) if c is not None else None
            if g is not None:
                cls_c = c
        if g is None:
            r.status = 'dissolved' if self._private(key) else 'missing'
            r.note = 'no function of this name in the code'
            return r
        r.where = g.where
        syms = f.params()
        first = None
        for name, pol in self._policies(f, g):
            try:
                a = self.aspects('spec', f, cls_s or f.cls, syms, pol)
                b = self.aspects('code', g, cls_c or g.cls, syms, pol)
                diffs = self.swallowed(f, g) or self.diff(key, a, b, g)
            except (RecursionError, Unsupported, Timeout, ValueError, KeyError, IndexError, TypeError, AttributeError) as e:
                if first is None:
                    first = e
                r.note += '[%s: %s %s] ' % (name, type(e).__name__, str(e)[:80])
                continue
            if name == 'modular':
                r.aspects = len(a.items)
                r.events = a.events
            if not diffs:
                r.status = 'equal'
                r.diffs = []
                r.policy = name
                return r
            if not isinstance(first, list):
                first = diffs
            elif not any(d.sure for d in first) and any(d.sure for d in diffs) and False:
                first = diffs
            if name == 'modular' and g.node is not None and self._textually_same(f, g):
                # nothing to escalate: cannot happen unless a callee moved
                pass
        if isinstance(first, list):
            r.diffs = first
            r.status = 'differs' if any(d.sure for d in first) else 'undecided'
            if r.status == 'differs' and self._callers_equal(key):
                r.status = 'equal'
                r.note += 'differs by itself, but every caller behaves the same'
        else:
            r.status = 'undecided'
            r.note = 'analysis failed: %s' % first
        return r

    # -- class frames

    def compare_class(self, key):
        """Bases, slots, constants and overriding methods of a class."""
        r = Result(key)
        a, b = self.sclasses[key], self.cclasses.get(key)
        if b is None:
            r.status = 'dissolved' if a.name.startswith('_') else 'missing'
            r.note = 'no class of this name in the code'
            return r
        r.where = '%s:%d class %s' % (b.module.relpath, b.node.lineno, b.qualname)
        known = {c.name for c in self.sclasses.values()}

        def bases(project, cls):
            out = []
            for c in project.mro(cls):
                if c is not cls and c.name in known:
                    out.append(c.name)
            for c in project.mro(cls):
                for e in c.node.bases:
                    if project.class_from_expr(c.module, e) is None and ast.unparse(e) != 'object':
                        out.append(ast.unparse(e).split('.')[-1])
            return out
        r.aspects = 2 + len(a.consts)
        x, y = bases(self.spec, a), bases(self.code, b)
        if x != y:
            r.diffs.append(Diff('base classes', ', '.join(x), ', '.join(y), r.where, True))
        for n, v in a.consts.items():
            w = b.consts.get(n)
            if w is None:
                if n == '__slots__':
                    continue
                r.diffs.append(Diff('constant ' + n, ast.unparse(v), '(none)', r.where, False, 'class constant renamed or removed'))
                continue
            p, q = literal(v), literal(w)
            if n == '__slots__' and p is not None and q is not None:
                if set(p) - set(q):
                    r.diffs.append(Diff('slots', ', '.join(sorted(p)), ', '.join(sorted(q)), r.where, True))
            elif ast.dump(v) != ast.dump(w):
                r.diffs.append(Diff('constant ' + n, ast.unparse(v), ast.unparse(w), r.where, p is not None and q is not None and p != q,
                                    'class constant in another form'))
        for n, g in b.methods.items():
            if n in a.methods:
                continue
            f = self.spec.method(a, n)
            if f is None or f.abstract:
                continue
            r.aspects += 1
            if self.code.method(b, n) is not g:
                continue
            sub = self._compare_pair(f, g, a, b)
            if sub.status == 'differs':
                for d in sub.diffs:
                    d.aspect = 'new override %s: %s' % (n, d.aspect)
                r.diffs.extend(sub.diffs)
            elif sub.status == 'undecided':
                r.diffs.append(Diff('new override ' + n, 'inherited', 'overridden', g.where, False, 'a method the specification inherits'))
        if r.diffs:
            r.status = 'differs' if any(d.sure for d in r.diffs) else 'undecided'
        return r

    def _compare_pair(self, f, g, cls_s, cls_c):
        r = Result(f.key)
        r.where = g.where
        try:
            syms = f.params()
            pol = frozenset(self.common)
            a = self.aspects('spec', f, cls_s, syms, pol)
            b = self.aspects('code', g, cls_c, syms, pol)
            r.diffs = self.diff(f.key, a, b, g)
            if r.diffs:
                r.status = 'differs' if any(d.sure for d in r.diffs) else 'undecided'
        except Exception as e:
            r.status = 'undecided'
            r.note = str(e)
        return r

    @staticmethod
    def _textually_same(f, g):
        return ast.dump(f.node) == ast.dump(g.node)

    # -- callers

    def callers(self, key):
        f = self.sfun[key]
        out = []
        for k, h in self.sfun.items():
            if k == key:
                continue
            for n in ast.walk(h.node):
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
                    if nm == f.name:
                        out.append(k)
                        break
        return out

    def still_used(self, key):
        """Where the code calls a function that it no longer defines, or ''."""
        f = self.sfun[key]
        if f.name.startswith('__') or f.name == '<module>':
            return ''
        defined = {g.name for g in self.code.all_funcs()} | {c.name for c in self.code.all_classes()}
        for m in self.code.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    defined.add(n.name)
                elif isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Store):
                    defined.add(n.attr if isinstance(n, ast.Attribute) else n.id)
        if f.name in defined:
            return ''
        for m in self.code.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    t = n.func
                    if f.cls is not None and isinstance(t, ast.Attribute) and t.attr == f.name and isinstance(t.value, ast.Name) and t.value.id == 'self' \
                            or f.cls is None and isinstance(t, ast.Name) and t.id == f.name and not m.star:
                        return '%s:%d' % (m.relpath, n.lineno)
        return ''

    def _callers_equal(self, key):
        """A private function may trade work with its callers: what counts is
        that each of them, with the function inlined, behaves the same."""
        if not self._private(key):
            return False
        cs = self.callers(key)
        if not cs:
            return False
        pol = frozenset(k for k in self.common if k != key)
        for k in cs:
            f, g = self.sfun[k], self.cfun.get(k)
            if g is None:
                return False
            try:
                syms = f.params()
                a = self.aspects('spec', f, f.cls, syms, pol)
                b = self.aspects('code', g, g.cls, syms, pol)
                used = any(x.key == key for x in a.summary.inlined) and any(x.key == key for x in b.summary.inlined)
                if not used or self.diff(k, a, b, g):
                    return False
            except Exception:
                return False
        return True

    # -- swallowed exceptions

    COMMON = {'get', 'add', 'set', 'update', 'copy', 'append', 'read', 'write', 'close', 'next'}

    def _swallows(self, fn):
        """(exception, function of the repository called in the try body) for
        every handler that can end normally, with the line of the handler."""
        if not hasattr(self, '_defined'):
            self._defined = {f.name for f in self.sfun.values() if not f.name.startswith('__')} - self.COMMON
        out = {}
        for t in ast.walk(fn):
            if not isinstance(t, ast.Try):
                continue
            called = set()
            for s in t.body:
                for n in ast.walk(s):
                    if isinstance(n, ast.Call):
                        called.add(n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', ''))
            for h in t.handlers:
                if self._ends(h.body):
                    continue
                types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for e in types:
                    name = ast.unparse(e).split('.')[-1] if e is not None else 'BaseException'
                    for c in called & self._defined:
                        out[(name, c)] = h.lineno
        return out

    @staticmethod
    def _ends(body):
        """Does the block always raise or leave the program?"""
        for s in body:
            if isinstance(s, ast.Raise):
                return True
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ('sys.exit', 'exit', 'os._exit'):
                return True
            if isinstance(s, ast.If) and s.orelse and Comparer._ends(s.body) and Comparer._ends(s.orelse):
                return True
        return False

    def swallowed(self, f, g):
        here = self._swallows(g.node)
        if not here:
            return []
        allowed = self._swallows(f.module.tree)
        return [Diff('exceptions caught', '(none)', '%s raised by %s() is caught and execution goes on' % p,
                     '%s:%d' % (g.module.relpath, ln), True)
                for p, ln in sorted(here.items()) if p not in allowed]

    # -- differences

    def class_attrs(self, f):
        out = set()
        mods = [f.module]
        for m in mods:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute):
                    out.add(n.attr)
        return out

    def variables(self):
        """Attributes of any class that always hold a symbolic variable made
        for them: no two of them stand for one another."""
        if self._variables is None:
            made, other = set(), set()
            for m in self.spec.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                c = n.value
                                lib = isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and ast.unparse(c.func).split('.')[0] in ('tensor', 'theano')
                                (made if lib else other).add(t.attr)
            self._variables = (made - other) | self.settings()
        return self._variables

    def settings(self):
        """Fields of classes that only carry the arguments they are created
        with, and the attributes such an object is reached through."""
        fields = set()
        for c in self.spec.all_classes():
            body = [x for x in c.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            if len(body) != 1 or not isinstance(body[0], ast.FunctionDef) or body[0].name != '__init__':
                continue
            got = set()
            for x in body[0].body:
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                    continue
                if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute)
                        and isinstance(x.value, ast.Name) and x.value.id == x.targets[0].attr):
                    got = None
                    break
                got.add(x.targets[0].attr)
            fields |= got or set()
        stores, through = {}, set()
        for m in self.spec.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and n.attr in fields:
                    if isinstance(n.ctx, ast.Store):
                        stores[n.attr] = stores.get(n.attr, 0) + 1
                    elif isinstance(n.value, ast.Attribute):
                        through.add((n.attr, n.value.attr))
        fields = {x for x in fields if stores.get(x) == 1}
        return fields | {b for a, b in through if a in fields}

    def written(self, g):
        """The names in the source of a function and of helpers that are new."""
        todo = [g.node]
        if hasattr(self.code, 'all_funcs'):
            todo += [f.node for f in self.code.all_funcs() if f.key not in self.sfun]
        return {n.id for t in todo for n in ast.walk(t) if isinstance(n, ast.Name)}

    def replaced_attrs(self, f, g):
        """Private attributes that the module no longer mentions, if it has
        others the specification does not know."""
        old, new = self.class_attrs(f), self.class_attrs(g)
        gone = {x for x in old - new if x.startswith('_')}
        return gone if {x for x in new - old if x.startswith('_')} else set()

    def diff(self, key, a, b, g):
        out = []
        names = list(a.items)
        for n in b.items:
            if n not in a.items:
                names.append(n)
        spec_vocab = None
        for n in names:
            x, y = a.items.get(n), b.items.get(n)
            if x == y:
                continue
            if spec_vocab is None:
                spec_vocab = Vocab(*a.items.values())
                same_shape = self.same_loops(a, b)
                attr_ok = self.class_attrs(self.sfun[key]) | self.variables()
                gone = self.replaced_attrs(self.sfun[key], g)
                name_ok = {c.name for c in self.spec.all_classes()} | {q.rpartition('.')[2].rpartition(':')[2] for q in self.common}
            why = ''
            if a.unsupported or b.unsupported:
                why = 'statement outside the analysed language'
            elif n.startswith('attribute self.') and (y is None and n[15:] in gone or x is None and gone and n[15:] not in attr_ok):
                why = 'state kept in other attributes than the specification: %s' % n[15:]
            elif n.startswith('default of '):
                why = '' if (x is not None and y is not None) else 'parameter list changed'
            else:
                if y is not None:
                    why = novelty(Vocab(y, keys=bool({'sort', 'sorted'} & spec_vocab.names)), spec_vocab, attr_ok, name_ok, self.written(g))
                    if why and n.startswith('effects on ') and x is not None and not b.unsupported and \
                            skipped(x, y, lambda vocab: bool(novelty(vocab, spec_vocab, attr_ok, name_ok))):
                        why = ''
                if not why and x is not None and Vocab(x).unknown:
                    why = 'specification contains a construct outside the value language'
                if not why and not same_shape:
                    why = self.loops_changed(n, x, y)
            where = b.where.get(n) or a.where.get(n) or ''
            if n.startswith('effects on ') and y is not None:
                i = 0
                xs = x or ()
                while i < len(y) and i < len(xs) and xs[i] == y[i]:
                    i += 1
                wl = b.stepwhere.get(n[len('effects on '):], [])
                if i < len(wl):
                    where = wl[i][0]
            if b.where.get(n) is None and where == a.where.get(n):
                where = g.where
            out.append(Diff(n, x, y, where or g.where, not why, why))
        if out and not any(d.sure for d in out):
            return out
        if out and rewritten(a.summary, b.summary):
            # the normal forms are not complete: where much of a function has
            # been written anew, only a difference that can be pinned to a
            # value, name, sign or side of a condition counts
            pairs = []
            for d in out:
                pinpoint(d.spec, d.code, pairs)
                if len(pairs) > 40:
                    break
            if len({p for p in pairs}) > 3 or not all(strong(x, y) for x, y in pairs):
                for d in out:
                    d.sure = False
                    d.why = 'most of the function is written anew, and the difference cannot be pinned down'
                return out
        # anything uncertain elsewhere in the function makes the rest uncertain
        if any(not d.sure for d in out):
            w = [d.why for d in out if not d.sure][0]
            for d in out:
                d.sure = False
                d.why = d.why or w
        return out

    @staticmethod
    def same_loops(a, b):
        """Whether the two are written with the same loops, without variables
        of their own in the code: then they are judged by their values."""
        (la, sa, va, ca), (lb, sb, vb, cb) = Comparer.loop_shape(a), Comparer.loop_shape(b)
        if la == lb:
            return (sa == sb or sb <= va) and not Comparer.left_elsewhere(a, b)
        # a loop that is gone without anything that could stand for it
        return not lb and {'For', 'While'} & set(la) and vb <= va and cb <= ca

    @staticmethod
    def loop_shape(asp):
        """The loops a function is written with, what is assigned in them and
        what is assigned anywhere."""
        loops, names, every, calls = [], set(), set(), set()
        for f in [asp.summary.func] + list(asp.summary.inlined):
            every |= set(f.params()) if hasattr(f, "params") else set()
            for n in ast.walk(f.node):
                if isinstance(n, (ast.For, ast.While)):
                    literal_ = isinstance(n, ast.For) and isinstance(n.iter, (ast.Tuple, ast.List))
                    loops.append('literal' if literal_ else type(n).__name__)
                    for m in ast.walk(n):
                        if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                            names.add(m.id)
                        elif isinstance(m, ast.Attribute) and isinstance(m.ctx, ast.Store):
                            names.add('.' + m.attr)
                elif isinstance(n, ast.comprehension):
                    loops.append('comprehension')
                if isinstance(n, ast.Call):
                    calls.add(n.func.attr if isinstance(n.func, ast.Attribute) else ast.unparse(n.func))
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    every.add(n.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    every.add('.' + n.attr)
        return sorted(x for x in loops if x != 'literal'), names, every, calls

    @staticmethod
    def left_elsewhere(a, b):
        """Whether a while loop has another condition and is left in another
        number of places: the condition has become an exit, or an exit the
        condition."""
        def whiles(asp):
            return Counter((ast.dump(n.test), sum(isinstance(m, (ast.Break, ast.Return)) for m in ast.walk(n)))
                           for f in [asp.summary.func] + list(asp.summary.inlined) for n in ast.walk(f.node) if isinstance(n, ast.While))
        x, y = whiles(a), whiles(b)
        x, y = x - y, y - x
        return bool(x and y) and not {t for t, n in x} & {t for t, n in y} and \
            sorted(n for t, n in x.elements()) != sorted(n for t, n in y.elements())

    @staticmethod
    def loops_changed(n, x, y):
        if x is None or y is None:
            return ''
        vx, vy = Vocab(x), Vocab(y)
        if len(vx.cols) != len(vy.cols):
            return 'loop with other carried variables than the specification'
        return ''


def describe(x):
    if x is None:
        return '(none)'
    if isinstance(x, V):
        return show(x)
    if isinstance(x, tuple):
        return ' ; '.join(('in %s: ' % ', '.join(show(l) for l in lab) if lab else '') + show(v) for lab, v in x)
    return str(x)
