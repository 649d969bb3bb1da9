"""Hash-consed terms, multi-terminal decision diagrams and algebraic normal forms.

A *term* is a nested tuple whose first item is a tag.  A *value* (class V) is a
reduced, ordered decision diagram whose inner nodes test boolean atoms (terms)
and whose leaves carry terms.  Because diagrams are reduced and share a single
global atom order, two expressions that choose between the same alternatives
under the same conditions are the *same object*, whatever control structure the
source used to make the choice.  Arithmetic is kept as multivariate (Laurent)
polynomials, comparisons as sign conditions on polynomials.

Nothing here executes or solves anything: it is value numbering.
"""

from fractions import Fraction

# ----------------------------------------------------------------- interning

_ids = {}
_canon = {}


def tid(term):
    """A process-wide number for a term, used only to sort canonically."""
    i = _ids.get(term)
    if i is None:
        i = len(_ids)
        _ids[term] = i
    return i


NONE = ('none',)
TRUE = ('b', True)
FALSE = ('b', False)


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return ('c', Fraction(x))
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return ('s', repr(x))
        return ('c', Fraction(repr(x)))
    if isinstance(x, Fraction):
        return ('c', x)
    raise TypeError(x)


ZERO = num(0)
ONE = num(1)

# ------------------------------------------------------------------ diagrams


class V(object):
    __slots__ = ('atom', 'hi', 'lo', 'term', 'size', '__weakref__')

    def leaf(self):
        return self.atom is None

    def __repr__(self):
        return show(self)


_leaves = {}
_nodes = {}
_groups = {}
_off_memo = {}


def group(atom):
    """What an atom compares with a constant: of all the atoms of a group, at
    most one is true."""
    g = _groups.get(atom, 0)
    if g == 0:
        g = None
        if atom[0] == 'isnone':
            g = atom[1]
        elif atom[0] == 'eq' and 's' in (atom[1][0], atom[2][0]) and atom[1][0] != atom[2][0]:
            g = atom[1] if atom[2][0] == 's' else atom[2]
        elif atom[0] == 'zero':
            p = dict(to_poly(atom[1]))
            p.pop((), None)
            g = from_poly(p)
        _groups[atom] = g
    return g


def given(v, g, c):
    """The diagram where g is known to be c: all the other atoms of its group
    are false."""
    if v.leaf():
        return v if c is None or v.term != g else leaf(c)
    key = (id(v), g, c)
    r = _off_memo.get(key)
    if r is None:
        if group(v.atom) == g:
            r = given(v.lo, g, c)
        else:
            hi, lo = given(v.hi, g, c), given(v.lo, g, c)
            r = v if hi is v.hi and lo is v.lo else _mk(v.atom, hi, lo)
        _off_memo[key] = r
    return r


def _constant(atom, g):
    if atom[0] == 'isnone':
        return NONE
    if atom[0] == 'eq':
        return atom[2] if atom[1] == g else atom[1]
    return None


def leaf(term):
    v = _leaves.get(term)
    if v is None:
        v = V()
        v.atom = v.hi = v.lo = None
        v.term = term
        v.size = 1
        _leaves[term] = v
    return v


VTRUE = leaf(TRUE)
VFALSE = leaf(FALSE)
VNONE = leaf(NONE)

_order = {}


def _rank(atom):
    r = _order.get(atom)
    if r is None:
        r = len(_order)
        _order[atom] = r
    return r


def _mk(atom, hi, lo):
    if hi is lo:
        return hi
    g = group(atom)
    if g is not None:
        c = _constant(atom, g)
        hi = given(hi, g, c)
        if hi is given(lo, g, c):
            return lo
    key = (atom, id(hi), id(lo))
    v = _nodes.get(key)
    if v is None:
        v = V()
        v.atom = atom
        v.hi = hi
        v.lo = lo
        v.term = None
        v.size = hi.size + lo.size
        _rank(atom)
        _nodes[key] = v
    return v


def _top(*vs):
    best = None
    for v in vs:
        if v.atom is not None:
            r = _order[v.atom]
            if best is None or r < best[0]:
                best = (r, v.atom)
    return best[1] if best else None


def _cof(v, atom):
    if v.atom == atom:
        return v.hi, v.lo
    return v, v


def atomv(atom):
    """The boolean diagram testing one atom."""
    _rank(atom)
    return _mk(atom, VTRUE, VFALSE)


_ite_memo = {}


def ite(c, a, b):
    """c is a boolean diagram (leaves TRUE/FALSE)."""
    if c is VTRUE:
        return a
    if c is VFALSE:
        return b
    if a is b:
        return a
    key = (id(c), id(a), id(b))
    r = _ite_memo.get(key)
    if r is not None:
        return r[0]
    t = _top(c, a, b)
    if t is None:
        # c is a leaf that is neither TRUE nor FALSE: should not happen
        raise ValueError('non-boolean condition %r' % (c.term,))
    ch, cl = _cof(c, t)
    ah, al = _cof(a, t)
    bh, bl = _cof(b, t)
    r = _mk(t, ite(ch, ah, bh), ite(cl, al, bl))
    _ite_memo[key] = (r, c, a, b)
    return r


def vnot(a):
    return ite(a, VFALSE, VTRUE)


def vand(a, b):
    return ite(a, b, VFALSE)


def vor(a, b):
    return ite(a, VTRUE, b)


_con_memo = {}


def constrain(v, c):
    """Generalised cofactor: the canonical representative of all diagrams that
    agree with v wherever c holds."""
    if c is VTRUE or c is VFALSE or v.leaf():
        return v
    key = (id(v), id(c))
    r = _con_memo.get(key)
    if r is not None:
        return r[0]
    t = _top(v, c)
    vh, vl = _cof(v, t)
    ch, cl = _cof(c, t)
    if ch is VFALSE:
        r = constrain(vl, cl)
    elif cl is VFALSE:
        r = constrain(vh, ch)
    else:
        r = _mk(t, constrain(vh, ch), constrain(vl, cl))
    _con_memo[key] = (r, v, c)
    return r


_res_memo = {}


def restrict(v, c):
    """Simplifies v, assuming the boolean diagram c holds."""
    if c is VTRUE or c is VFALSE or v.leaf():
        return v
    key = (id(v), id(c))
    r = _res_memo.get(key)
    if r is not None:
        return r[0]
    t = _top(v, c)
    vh, vl = _cof(v, t)
    ch, cl = _cof(c, t)
    if ch is VFALSE:
        r = restrict(vl, cl)
    elif cl is VFALSE:
        r = restrict(vh, ch)
    elif v.atom == t:
        r = _mk(t, restrict(vh, ch), restrict(vl, cl))
    else:
        # c tests an atom that v does not: forget it
        r = restrict(v, vor(ch, cl))
    _res_memo[key] = (r, v, c)
    return r


def map_leaves(v, fn, memo=None):
    """fn: term -> V."""
    if v.leaf():
        return fn(v.term)
    if memo is None:
        memo = {}
    r = memo.get(id(v))
    if r is None:
        r = ite(atomv(v.atom), map_leaves(v.hi, fn, memo), map_leaves(v.lo, fn, memo))
        memo[id(v)] = r
    return r


LIMIT = 48
AFTER = {}      # number of an opaque call that changed its receiver -> the call
COLORS = {}     # number of a loop variable's colour -> its description


def lift(fn, *vs):
    """Applies a term-level function pointwise to diagrams; fn returns a V."""
    n = 1
    for v in vs:
        n *= v.size
    if n == 1:
        return fn(*[v.term for v in vs])
    if n > LIMIT:
        vs = [v if v.leaf() else leaf(('v', v)) for v in vs]
        return fn(*[v.term for v in vs])
    return _lift(fn, vs)


def _lift(fn, vs):
    t = _top(*vs)
    if t is None:
        return fn(*[v.term for v in vs])
    hs, ls = [], []
    for v in vs:
        h, l = _cof(v, t)
        hs.append(h)
        ls.append(l)
    return ite(atomv(t), _lift(fn, hs), _lift(fn, ls))


def as_term(v):
    """Closes a diagram into a single term."""
    return v.term if v.leaf() else ('v', v)


def from_term(t):
    if t[0] == 'v':
        return t[1]
    return leaf(t)


def atoms_of(v, out=None):
    if out is None:
        out = set()
    if not v.leaf():
        out.add(v.atom)
        atoms_of(v.hi, out)
        atoms_of(v.lo, out)
    return out


def leaves_of(v, out=None):
    if out is None:
        out = []
    if v.leaf():
        if v.term not in out:
            out.append(v.term)
    else:
        leaves_of(v.hi, out)
        leaves_of(v.lo, out)
    return out


# ---------------------------------------------------------------- arithmetic

NONNUM = {'s', 'none', 'tuple', 'concat', 'fmt', 'mut', 'dictval', 'bytes', 'lambda'}


def is_num(t):
    return t[0] == 'c'


def to_poly(t):
    """dict monomial -> coefficient."""
    if t[0] == 'c':
        return {(): t[1]} if t[1] != 0 else {}
    if t[0] == 'poly':
        return dict(t[1])
    return {((t, Fraction(1)),): Fraction(1)}


LEADS = {}


def _lead(d):
    """The linear term by which a sum in a denominator is divided."""
    r = LEADS.get(d, False)
    if r is False:
        ms = sorted((m for m, c in d[1] if len(m) == 1 and m[0][1] == 1), key=_mkey)
        r = LEADS[d] = ms[0][0][0] if ms else None
    return r


def _divide(p):
    """Divides by the sums in denominators: (x + 2) / (x + 1) is 1 + 1 / (x + 1)."""
    todo, out = list(p.items()), {}
    for _ in range(200):
        if not todo:
            return out
        m, c = todo.pop()
        for d, e in m:
            if e <= -1 and d[0] == 'poly':
                x = _lead(d)
                if x is not None and any(a is x or a == x for a, k in m if k >= 1):
                    q = dict(d[1])
                    lead = ((x, Fraction(1)),)
                    rest = _mmul(m, ((x, Fraction(-1)),))
                    todo.append((_mmul(rest, ((d, Fraction(1)),)), c / q[lead]))
                    todo.extend((_mmul(rest, n), -c * k / q[lead]) for n, k in q.items() if n != lead)
                    break
        else:
            out[m] = out.get(m, Fraction(0)) + c
    return p


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if any(e <= -1 and d[0] == 'poly' for m in p for d, e in m):
        p = {m: c for m, c in _divide(p).items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return ('c', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ('poly', tuple(sorted(p.items(), key=lambda mc: _mkey(mc[0]))))


def _mkey(m):
    return tuple((tid(a), e) for a, e in m)


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, Fraction(0)) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: tid(ae[0])))


def t_add(a, b, sign=1):
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, Fraction(0)) + sign * c
    return from_poly(p)


def t_mul(a, b):
    p, q = to_poly(a), to_poly(b)
    n = len(p) * len(q)
    if min(len(p), len(q)) > 1 and n > 12:
        p, q = _factor(a), _factor(b)
    elif n > 12 and not (len(p) == 1 and () in p or len(q) == 1 and () in q):
        # a long sum times one monomial: keep the sum as a factor
        if len(p) > 1:
            p = _factor(a)
        else:
            q = _factor(b)
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            r[m] = r.get(m, Fraction(0)) + c1 * c2
    return from_poly(r)


def _factor(a):
    """A sum as one factor, with its leading coefficient pulled out."""
    p = to_poly(a)
    if len(p) == 1:
        return p
    lead = sorted(p.items(), key=lambda mc: _mkey(mc[0]))[0][1]
    q = from_poly({m: c / lead for m, c in p.items()})
    return {((q, Fraction(1)),): lead}


def t_inv(a):
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / c})
    if not p:
        return ('divzero',)
    # pull out the leading coefficient so that (2a+2b)^-1 is canonical
    lead = sorted(p.items(), key=lambda mc: _mkey(mc[0]))[0][1]
    q = from_poly({m: c / lead for m, c in p.items()})
    return from_poly({((q, Fraction(-1)),): 1 / lead})


def t_div(a, b):
    return t_mul(a, t_inv(b))


def t_pow(a, b):
    if b[0] == 'c' and b[1].denominator == 1 and abs(b[1]) <= 4:
        n = int(b[1])
        r = ONE
        if len(to_poly(a)) > 3 or (len(to_poly(a)) > 1 and abs(n) > 2):
            (m, c), = _factor(a).items()
            r = from_poly({((m[0][0], Fraction(abs(n))),): c ** abs(n)})
        else:
            for _ in range(abs(n)):
                r = t_mul(r, a)
        return r if n >= 0 else t_inv(r)
    if a[0] == 'c' and b[0] == 'c' and b[1] == Fraction(1, 2):
        return ('call', ('g', 'sqrt'), (a,), ())
    if b[0] == 'c' and b[1] == Fraction(1, 2):
        return ('call', ('g', 'sqrt'), (a,), ())
    return ('pow', a, b)


def t_exp(a):
    """exp(x + log(y)) == exp(x) * y"""
    rest, out = {}, None
    for m, c in to_poly(a).items():
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'call' and m[0][0][1] == ('g', 'log') and len(m[0][0][2]) == 1:
            x = m[0][0][2][0]
            out = x if out is None else t_mul(out, x)
        else:
            rest[m] = c
    if out is None:
        return ('call', ('g', 'exp'), (a,), ())
    return t_mul(out, ('call', ('g', 'exp'), (from_poly(rest),), ())) if rest else out


def t_log(a):
    if a[0] == 'call' and a[1] == ('g', 'exp') and len(a[2]) == 1:
        return a[2][0]
    return ('call', ('g', 'log'), (a,), ())


def t_neg(a):
    return t_mul(num(-1), a)


# --------------------------------------------------------------- comparisons

INT_CALLS = {'len', 'round', 'int'}
ARRAY_SYMS = set()  # parameters documented as arrays, and
ARRAY_ATTRS = set() # attributes that only arrays are stored in (see Comparer)
INT_METHODS = set() # methods documented to return integers (see Comparer)
INT_SYMS = set()    # parameters documented as integers (see Comparer)
INT_ATTRS = {'size', 'ndim', 'epoch_number', 'update_number', 'id'}


def int_like(t):
    if t[0] == 'c':
        return t[1].denominator == 1
    if t[0] == 'poly':
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and int_like(a)
                                              for a, e in m) for m, c in t[1])
    if t[0] in ('idx',):
        return True
    if t[0] == 'call' and t[1][0] == 'g' and t[1][1] in INT_CALLS:
        return True
    if t[0] == 'call' and t[1][0] in ('m', 'g') and (t[1][0] == 'm' or t[1][1].startswith('self.')) and \
            t[1][1].rpartition('.')[2] in INT_METHODS:
        return True
    if t[0] == 'attr' and t[2] in INT_ATTRS:
        return True
    if t[0] == 'sym' and t[1] in INT_SYMS:
        return True
    if t[0] == 'sub' and t[1][0] == 'attr' and t[1][2] == 'shape':
        return True
    return False


def nonneg_int(t):
    """A count: an integer that is never negative."""
    if t[0] == 'idx' or _is_len(t):
        return True
    if t[0] == 'attr' and t[2] in ('size', 'ndim'):
        return True
    return t[0] == 'sub' and t[1][0] == 'attr' and t[1][2] == 'shape'




def _is_len(t):
    return t[0] == 'call' and t[1] == ('g', 'len') and len(t[2]) == 1


def truth_atom(t):
    """Boolean diagram for the truth value of a term."""
    tag = t[0]
    if tag == 'b':
        return VTRUE if t[1] else VFALSE
    if tag == 'v':
        return truth(t[1])
    if tag == 'c':
        return VTRUE if t[1] != 0 else VFALSE
    if tag == 'none':
        return VFALSE
    if tag in ('s', 'tuple'):
        return VTRUE if len(t) > 1 and t[1:] != ('',) else VFALSE
    if tag == 'atom':
        return atomv(t[1])
    if tag == 'mut' and t[1] == 'list' and not t[3]:
        return VTRUE if t[2] else VFALSE
    if _is_len(t):
        return truth_atom(t[2][0])
    if nonneg_int(t):
        return _pos(t)
    if tag == 'call' and t[1] == ('g', 'bool') and len(t[2]) == 1:
        return truth_atom(t[2][0])
    return atomv(('truthy', t))


def truth(v):
    return map_leaves(v, truth_atom)


def cmp_lt(a, b):
    """a < b as a boolean diagram."""
    if a[0] == 'c' and b[0] == 'c':
        return VTRUE if a[1] < b[1] else VFALSE
    # length tests
    if _is_len(b) and a[0] == 'c':
        if a[1] < 0:
            return VTRUE
        if a[1] == 0:
            return truth_atom(b[2][0])
    if _is_len(a) and b[0] == 'c':
        if b[1] <= 0:
            return VFALSE
        if b[1] == 1:
            return vnot(truth_atom(a[2][0]))
    if a[0] in NONNUM or b[0] in NONNUM:
        return atomv(('lt', a, b))
    d = t_add(b, a, -1)
    return _pos(d)


def _pos(d):
    """d > 0"""
    if d[0] == 'c':
        return VTRUE if d[1] > 0 else VFALSE
    p = to_poly(d)
    # normalise positive scale
    lead = sorted(p.items(), key=lambda mc: (mc[0] == (), _mkey(mc[0])))[0][1]
    s = abs(lead)
    q = {m: c / s for m, c in p.items()}
    if int_like(from_poly(p)):
        # integers: scale to primitive, then  e > k  with integer k; canonical
        # direction: leading coefficient positive, atom always "e > k"
        den = 1
        for m, c in p.items():
            pass
        if lead < 0:
            # d > 0  <=>  -d < 0  <=> not (-d >= 0) <=> not (-d > -1)
            neg = {m: -c for m, c in p.items()}
            neg[()] = neg.get((), Fraction(0)) + 1
            return vnot(atomv(('pos', from_poly(neg))))
        return atomv(('pos', from_poly(p)))
    if lead < 0:
        # keep strictness: d > 0 with negative lead, distinct from not(-d > 0)
        return vnot(atomv(('nonneg', from_poly({m: -c for m, c in q.items()}))))
    return atomv(('pos', from_poly(q)))


def choose(c, a, b):
    """ite(c, a, b), where the larger or smaller of two values is the same
    however it is written."""
    if a is b or c.leaf() or c.atom[0] not in ('pos', 'nonneg') and c.size == 2 or c.size > 8 or a.size * b.size > 12 \
            or not all(numeric(t) for v in (a, b) for t in leaves_of(v)):
        return ite(c, a, b)
    if c in (lift(lambda x, y: cmp_lt(x, y), a, b), lift(lambda x, y: cmp_le(x, y), a, b)):
        return vextreme('min', a, b)
    if c in (lift(lambda x, y: cmp_lt(y, x), a, b), lift(lambda x, y: cmp_le(y, x), a, b)):
        return vextreme('max', a, b)
    return ite(c, a, b)


def strict(v, d):
    """v with the case d = 0 moved to the side where d is not positive: for
    conditions of assignments that change nothing if d is zero."""
    if v.leaf():
        return v
    atom = v.atom
    if atom[0] == 'nonneg' and proportional(to_poly(atom[1]), to_poly(d)):
        atom = ('pos', atom[1])
    return ite(atomv(atom), strict(v.hi, d), strict(v.lo, d))


def proportional(p, q):
    return bool(p) and set(p) == set(q) and len({p[m] / q[m] for m in p}) == 1


def numeric(t):
    return t[0] not in NONNUM and t[0] not in ('none', 'b', 'v')


_extremes = {}


def extreme(name, terms):
    """The largest or the smallest one of some values."""
    cs = [t for t in terms if t[0] == 'c']
    if len(cs) > 1:
        terms = frozenset(terms) - set(cs) | {('c', (max if name == 'max' else min)(t[1] for t in cs))}
    terms = frozenset(terms)
    first, *rest = sorted(terms, key=lambda t: (t[0] != 'c', tid(t)))
    r = leaf(first)
    for t in rest:
        if name == 'max':
            r = lift(lambda a, b: ite(cmp_lt(a, b), leaf(b), leaf(a)), r, leaf(t))
        else:
            r = lift(lambda a, b: ite(cmp_lt(a, b), leaf(a), leaf(b)), r, leaf(t))
    _extremes[id(r)] = (name, terms, r)
    return r


def vextreme(name, v, w):
    sv, sw = [frozenset([x.term]) if x.leaf() else _extremes[id(x)][1] if _extremes.get(id(x), ('',))[0] == name else None for x in (v, w)]
    if sv is not None and sw is not None:
        return extreme(name, sv | sw)
    t = _top(*[x for x, y in ((v, sv), (w, sw)) if y is None])
    (vh, vl), (wh, wl) = _cof(v, t), _cof(w, t)
    return ite(atomv(t), vextreme(name, vh, wh), vextreme(name, vl, wl))


def never_negative(t):
    if t[0] == 'c':
        return t[1] >= 0
    if t[0] == 'call' and t[1][0] == 'g':
        return t[1][1].split('.')[-1] in ('abs', 'exp', 'sqrt', 'len', 'sigmoid', 'softmax')
    p = list(to_poly(t).items())
    # an even or broken power, times a nonnegative number
    return len(p) == 1 and p[0][1] > 0 and bool(p[0][0]) and all(e % 2 != 1 or never_negative(a) for a, e in p[0][0] if a is not t) and \
        not any(a is t for a, e in p[0][0])


def bound(name, a, b):
    """The elementwise larger or smaller one of two values."""
    g = ('g', 'tensor.' + name)
    xs = set()
    for x in (a, b):
        xs |= set(x[2]) if x[0] == 'call' and x[1] == g and not x[3] else {x}
    cs = [x for x in xs if x[0] == 'c']
    if len(cs) > 1:
        k = (max if name == 'max' else min)(x[1] for x in cs)
        xs = xs - set(cs) | {('c', k)}
        cs = [('c', k)]
    if cs and len(xs) > 1:
        rest = xs - set(cs)
        if cs[0][1] <= 0 and any(never_negative(x) for x in rest):
            if name == 'max':
                xs = rest
    if len(xs) == 1:
        return xs.pop()
    return ('call', g, tuple(sorted(xs, key=tid)), ())


def cmp_le(a, b):
    return vnot(cmp_lt(b, a))


def cmp_eq(a, b):
    if a == b:
        return VTRUE
    if a[0] in ('c', 's', 'b', 'none') and b[0] in ('c', 's', 'b', 'none'):
        if a[0] == b[0]:
            return VFALSE
        if 'none' in (a[0], b[0]) or 's' in (a[0], b[0]):
            return VFALSE
    if NONE in (a, b):
        return cmp_isnone(a if b == NONE else b)
    if b in (TRUE, FALSE) or a in (TRUE, FALSE):
        x, y = (a, b) if tid(a) < tid(b) else (b, a)
        return atomv(('eq', x, y))
    for x, y in ((a, b), (b, a)):
        if _is_len(x) and y[0] == 'c':
            if y[1] == 0:
                return vnot(truth_atom(x[2][0]))
            if y[1] < 0:
                return VFALSE
    for x, y in ((a, b), (b, a)):
        if y[0] == 's' and y[1] and x[0] == 'sub' and x[2][0] == 'slice' and x[2][3] == NONE:
            # the first or the last characters of a string
            n = ('c', Fraction(len(y[1])))
            if x[2][1] == NONE and x[2][2] == n:
                return truth_atom(('call', ('m', 'startswith'), (x[1], y), ()))
            if x[2][2] == NONE and x[2][1] == ('c', -n[1]):
                return truth_atom(('call', ('m', 'endswith'), (x[1], y), ()))
    if a[0] in NONNUM or b[0] in NONNUM:
        x, y = (a, b) if tid(a) < tid(b) else (b, a)
        return atomv(('eq', x, y))
    for x, y in ((a, b), (b, a)):
        if y[0] == 'c' and nonneg_int(x) and y[1] <= 0:
            return vnot(_pos(x)) if y[1] == 0 else VFALSE
    d = t_add(a, b, -1)
    if d[0] == 'c':
        return VTRUE if d[1] == 0 else VFALSE
    p = to_poly(d)
    lead = sorted(p.items(), key=lambda mc: (mc[0] == (), _mkey(mc[0])))[0][1]
    return atomv(('zero', from_poly({m: c / lead for m, c in p.items()})))


NEVER_NONE = {'c', 's', 'b', 'tuple', 'mut', 'concat', 'fmt', 'poly', 'lambda', 'dictval', 'obj'}


def cmp_isnone(a):
    if a == NONE:
        return VTRUE
    if a[0] in NEVER_NONE:
        return VFALSE
    return atomv(('isnone', a))


COPIES = {('g', 'set'), ('g', 'frozenset'), ('g', 'list'), ('g', 'tuple'), ('g', 'sorted')}
# the list of words and the dictionary made from it
SAME_MEMBERS = {'id_to_word': 'word_to_id'}


def cmp_in(a, b):
    if b[0] == 'tuple':
        r = VFALSE
        for x in b[1:]:
            r = vor(r, cmp_eq(a, x))
        return r
    if b[0] == 'mut' and not b[3] and b[1] in ('list', 'set'):
        r = VFALSE
        for x in b[2]:
            r = vor(r, cmp_eq(a, x))
        return r
    if b[0] == 'call' and b[1][0] == 'm' and b[1][1] == 'keys' and len(b[2]) == 1:
        b = b[2][0]
    while b[0] == 'call' and b[1] in COPIES and len(b[2]) == 1 and not b[3]:
        b = b[2][0]
    b = unaffected(b, a)
    if b[0] == 'attr' and b[2] in SAME_MEMBERS:
        b = ('attr', b[1], SAME_MEMBERS[b[2]])
    return atomv(('in', a, b))


def unaffected(b, key):
    """A collection without the last stores to certainly different keys."""
    if b[0] != 'after' or key[0] not in ('s', 'c') or len(b) != 3 or b[2] != ('s', 'contents'):
        return b
    d = AFTER.get(int(b[1][1]))
    if d is None or d[0] != 'mut' or d[1] != 'ext' or \
            not all(r[0] == 'setitem' and r[1][0][0] in ('s', 'c') and r[1][0] != key for r in d[3]):
        return b
    return d[2]


# ---------------------------------------------------------------- traversals

_OPEN = {}


def _open(kind, n):
    """Whether a registered description mentions a variable of a loop that has
    not been closed yet."""
    k = (kind, n)
    if k not in _OPEN:
        _OPEN[k] = False
        d = (COLORS if kind == 'col' else AFTER).get(n)
        if d is not None:
            for t in walk(d):
                if t[0] == 'mu' and len(t) == 3 and t[2][0] in ('e', 'h'):
                    _OPEN[k] = True
                    break
                if t[0] in ('col', 'after') and len(t) > 1 and isinstance(t[1], tuple) and t[1] and t[1][0] == 'c' \
                        and _open(t[0], int(t[1][1])):
                    _OPEN[k] = True
                    break
    return _OPEN[k]


def _subst_registered(t, fn, memo):
    n = int(t[1][1])
    reg = COLORS if t[0] == 'col' else AFTER
    d = reg[n]
    d2 = _subst_any(d, fn, memo) if t[0] == 'after' else tuple(_subst_any(x, fn, memo) for x in d)
    if d2 == d:
        return t
    m = tid(d2)
    reg[m] = d2
    return (t[0], ('c', Fraction(m))) + t[2:]


def subst_term(t, fn, memo):
    """Rewrites a term bottom-up; fn(term) -> V or None (keep)."""
    key = t
    r = memo.get(key)
    if r is not None:
        return r
    r0 = fn(t)
    if r0 is not None:
        memo[key] = r0
        return r0
    tag = t[0]
    if tag in ('c', 's', 'b', 'none', 'g', 'sym', 'bytes'):
        r = leaf(t)
    elif tag in ('col', 'after') and len(t) > 1 and isinstance(t[1], tuple) and t[1] and t[1][0] == 'c' and _open(tag, int(t[1][1])):
        r = leaf(_subst_registered(t, fn, memo))
    elif tag == 'v':
        r = subst(t[1], fn, memo)
    elif tag == 'poly':
        acc = leaf(ZERO)
        for m, c in t[1]:
            mv = leaf(('c', c))
            for a, e in m:
                av = subst_term(a, fn, memo)
                if e == 1:
                    mv = lift(lambda x, y: leaf(t_mul(x, y)), mv, av)
                else:
                    ev = ('c', e)
                    if e.denominator == 1 and abs(e) <= 4:
                        mv = lift(lambda x, y: leaf(t_mul(x, t_pow(y, ev))), mv, av)
                    else:
                        mv = lift(lambda x, y: leaf(t_mul(x, ('pow', y, ev))), mv, av)
            acc = lift(lambda x, y: leaf(t_add(x, y)), acc, mv)
        r = acc
    else:
        changed = False
        items = []
        for x in t:
            y = _subst_any(x, fn, memo)
            if y is not x:
                changed = True
            items.append(y)
        if tag == 'sub' and changed and len(items) == 3:
            items[1] = unaffected(items[1], items[2])
        r = leaf(tuple(items)) if changed else leaf(t)
    memo[key] = r
    return r


def _subst_any(x, fn, memo):
    if isinstance(x, V):
        return subst(x, fn, memo)
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in TAGS:
            return as_term(subst_term(x, fn, memo))
        out = []
        changed = False
        for y in x:
            z = _subst_any(y, fn, memo)
            if z is not y:
                changed = True
            out.append(z)
        return tuple(out) if changed else x
    return x


TAGS = {'c', 's', 'b', 'none', 'g', 'sym', 'bytes', 'attr', 'sub', 'slice', 'tuple', 'obj', 'call',
        'poly', 'pow', 'ver', 'elem', 'idx', 'mu', 'out', 'sum', 'mut', 'lambda', 'unknown', 'v', 'L',
        'concat', 'fmt', 'op', 'after', 'star', 'm', 'dictval', 'divzero', 'truthy', 'lt', 'pos',
        'nonneg', 'eq', 'zero', 'isnone', 'in', 'exc', 'exists', 'is', 'isinst', 'W', 'bound', 'tryenv',
        'col', 'rep', 'partial', 'exit', 'imp'}


def subst_atom(atom, fn, memo):
    """Rewrites an atom, returning a boolean diagram."""
    tag = atom[0]
    if tag == 'truthy':
        return truth(subst_term(atom[1], fn, memo))
    if tag == 'isnone':
        return map_leaves(subst_term(atom[1], fn, memo), cmp_isnone)
    if tag == 'pos':
        return map_leaves(subst_term(atom[1], fn, memo), lambda d: cmp_lt(ZERO, d))
    if tag == 'nonneg':
        return map_leaves(subst_term(atom[1], fn, memo), lambda d: vnot(cmp_lt(d, ZERO)))
    if tag == 'zero':
        return map_leaves(subst_term(atom[1], fn, memo), lambda d: cmp_eq(d, ZERO))
    if tag in ('lt', 'eq', 'in'):
        f = {'lt': cmp_lt, 'eq': cmp_eq, 'in': cmp_in}[tag]
        return lift(f, subst_term(atom[1], fn, memo), subst_term(atom[2], fn, memo))
    return atomv(_subst_any(atom, fn, memo) if not callable(atom) else atom)


def subst(v, fn, memo):
    if v.leaf():
        return subst_term(v.term, fn, memo)
    key = ('vv', id(v))
    r = memo.get(key)
    if r is None:
        c = subst_atom(v.atom, fn, memo)
        r = ite(c, subst(v.hi, fn, memo), subst(v.lo, fn, memo))
        memo[key] = r
    return r


def walk(x, seen=None):
    """All terms inside a term / value (including inside atoms)."""
    if seen is None:
        seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, V):
            if id(y) in seen:
                continue
            seen.add(id(y))
            if y.leaf():
                stack.append(y.term)
            else:
                stack.append(y.atom)
                stack.append(y.hi)
                stack.append(y.lo)
        elif isinstance(y, tuple):
            if y in seen:
                continue
            seen.add(y)
            if y and isinstance(y[0], str):
                yield y
            stack.extend(y)


def contains(x, pred):
    return any(pred(t) for t in walk(x))


# ------------------------------------------------------------------- display

def show(x, depth=0):
    if depth > 14:
        return '...'
    d = depth + 1
    if isinstance(x, V):
        if x.leaf():
            return show(x.term, d)
        if x.hi is VTRUE and x.lo is VFALSE:
            return show_atom(x.atom, d)
        if x.hi is VFALSE and x.lo is VTRUE:
            return 'not(%s)' % show_atom(x.atom, d)
        if x.lo is VFALSE:
            return '(%s and %s)' % (show_atom(x.atom, d), show(x.hi, d))
        if x.hi is VTRUE:
            return '(%s or %s)' % (show_atom(x.atom, d), show(x.lo, d))
        if x.hi is VFALSE:
            return '(not %s and %s)' % (show_atom(x.atom, d), show(x.lo, d))
        return '(%s if %s else %s)' % (show(x.hi, d), show_atom(x.atom, d), show(x.lo, d))
    if not isinstance(x, tuple) or not x:
        return str(x)
    tag = x[0]
    if not isinstance(tag, str) or tag not in TAGS:
        return '[%s]' % ', '.join(show(y, d) for y in x)
    if tag == 'c':
        return str(x[1]) if x[1].denominator == 1 else str(float(x[1]))
    if tag == 'b':
        return str(x[1])
    if tag == 's':
        return repr(x[1])
    if tag == 'none':
        return 'None'
    if tag == 'g':
        return x[1]
    if tag == 'm':
        return '.' + x[1]
    if tag == 'sym':
        return x[1]
    if tag == 'attr':
        return '%s.%s' % (show(x[1], d), x[2])
    if tag == 'sub':
        return '%s[%s]' % (show(x[1], d), show(x[2], d))
    if tag == 'slice':
        return ':'.join('' if y == NONE else show(y, d) for y in x[1:])
    if tag == 'tuple':
        return '(%s)' % ', '.join(show(y, d) for y in x[1:])
    if tag == 'call':
        args = [show(a, d) for a in x[2]] + ['%s=%s' % (k, show(a, d)) for k, a in x[3]]
        if x[1][0] == 'm':
            return '%s.%s(%s)' % (args[0] if args else '?', x[1][1], ', '.join(args[1:]))
        return '%s(%s)' % (show(x[1], d), ', '.join(args))
    if tag == 'poly':
        parts = []
        for m, c in x[1]:
            f = [show(a, d) + ('' if e == 1 else '^%s' % e) for a, e in m]
            if c != 1 or not f:
                f.insert(0, show(('c', c), d))
            parts.append('*'.join(f))
        return '(' + ' + '.join(parts) + ')'
    if tag == 'v':
        return show(x[1], d)
    if tag == 'elem':
        return 'each(%s)' % show(x[1], d)
    if tag == 'idx':
        return 'index(%s)' % show(x[1], d)
    if tag == 'L':
        return show(x[1], d) + ("'" * x[2])
    if tag in ('mu', 'out'):
        col = x[2]
        return '%s<%s of %s>' % ('loopvar' if tag == 'mu' else 'after-loop', '#%s' % (col[1][1],) if col[0] == 'col' else str(col), show(x[1], d + 4))
    return '%s<%s>' % (tag, ', '.join(show(y, d) for y in x[1:]))


def show_atom(a, d=0):
    tag = a[0]
    if tag == 'truthy':
        return show(a[1], d)
    if tag == 'pos':
        return '%s > 0' % show(a[1], d)
    if tag == 'nonneg':
        return '%s >= 0' % show(a[1], d)
    if tag == 'zero':
        return '%s == 0' % show(a[1], d)
    if tag == 'isnone':
        return '%s is None' % show(a[1], d)
    if tag in ('lt', 'eq', 'in'):
        return '%s %s %s' % (show(a[1], d), {'lt': '<', 'eq': '==', 'in': 'in'}[tag], show(a[2], d))
    return show(a, d)
