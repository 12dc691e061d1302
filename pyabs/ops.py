"""Operations on abstract values."""
import decimal
import math
import operator
import re
from fractions import Fraction

from .facts import ZERO, num, ts_remove
from .values import (AbsMap, AbsRaise, AColl, ADict, AList, Analysis, ASet, AView, Bound, CachedProp, Cat, ClassM, Cls, Cut,
                     Extern, Func, Iter, LiveAttrs, MapKeys, MatchObj, Module, NATIVE, Native, Obj, Partial, Prop, Regex, Slice,
                     StaticM, Super, Sym, TS, XBytes, XElem, show)

NUMERIC = ('bool', 'int', 'float', 'Decimal')
SIZED = ('str', 'bytes', 'list', 'tuple', 'dict', 'set')


# ---------------------------------------------------------------------- terms and keys
def term(I, v):
    if isinstance(v, (Sym, Cat, XBytes)):
        return v.term
    if isinstance(v, Cls):
        return v.key()
    if isinstance(v, tuple):
        return ('tuple',) + tuple(term(I, x) for x in v)
    if isinstance(v, NATIVE):
        return ('c', type(v).__name__, v) if not isinstance(v, str) else ('c', v)
    if isinstance(v, Obj):
        if isinstance(v.payload, NATIVE) and v.payload is not None and v.cls.attrs.get('__members_list__'):
            return term(I, v.payload)
        return ('obj', v.ident)
    if isinstance(v, (AList, ADict, ASet, Iter)):
        return ('obj', v.ident)
    if isinstance(v, (AbsMap, AColl)):
        return v.term
    if isinstance(v, XElem):
        return ('obj', v.ident)
    if isinstance(v, Extern):
        return ('extern', v.name)
    if isinstance(v, Func):
        return ('func', v.module.name, v.qualname, id(v.env) if '<locals>' in v.qualname else 0)
    if isinstance(v, Native):
        return ('native', v.name)
    if isinstance(v, Module):
        return ('module', v.name)
    if isinstance(v, Slice):
        return ('slice', term(I, v.a), term(I, v.b), term(I, v.c))
    if isinstance(v, Bound):
        return ('bound', term(I, v.self_), term(I, v.func))
    if isinstance(v, Partial):
        return ('partial', term(I, v.func)) + tuple(term(I, x) for x in v.args) + tuple(
            (k, term(I, x)) for k, x in sorted(v.kwargs.items()))
    if isinstance(v, Regex):
        return ('regex', term(I, v.pattern), v.flags)
    if isinstance(v, MatchObj):
        return ('match', term(I, v.pattern), v.kind, term(I, v.string))
    if isinstance(v, (StaticM, ClassM)):
        return term(I, v.f)
    if isinstance(v, MapKeys):
        return ('keys', v.map.term)
    return ('host', id(v))


def keyterm(I, v):
    """Hash key of a value; equal constants share it as in Python."""
    if isinstance(v, Sym):
        c = const_of(I, v)
        if c is not NOCONST:
            return ('k', c)
        return v.term
    if isinstance(v, NATIVE):
        return ('k', v)
    if isinstance(v, Obj) and isinstance(v.payload, NATIVE) and v.payload is not None:
        return ('k', v.payload)
    if isinstance(v, (AList, ADict)):
        I.raise_('TypeError', 'unhashable type')
    if isinstance(v, tuple):
        return ('tuple',) + tuple(keyterm(I, x) for x in v)
    if isinstance(v, Obj) and v.payload is None:
        h, own = v.cls.lookup('__hash__')
        if own is not None and not own.builtin and isinstance(h, Func):
            return user_key(I, v, h)
    return term(I, v)


def user_key(I, v, h):
    """The equivalence class of an object whose class says what equal means."""
    hv = term(I, I.call(Bound(v, h), [], {}))
    reps = I.data.get('__reps') or {}
    mine = reps.get(hv, ())
    for i, r in enumerate(mine):
        if r is v:
            return ('hashed', hv, i)
        e, own = r.cls.lookup('__eq__')
        if own is not None and not own.builtin and I.truth(I.call(Bound(r, e), [v], {})):
            return ('hashed', hv, i)
    I.setd(I.data, '__reps', {**reps, hv: tuple(mine) + (v,)})
    return ('hashed', hv, len(mine))


NOCONST = object()


def const_of(I, s):
    """The constant a symbol is known to equal, if any."""
    f = I.facts
    if s.term in f.const:
        return f.const[s.term]
    ts = I.types(s)
    if ts.inc is not None and len(ts.inc) == 1:
        c = next(iter(ts.inc)).name
        if c == 'NoneType':
            return None
        if c in ('int', 'bool'):
            u = f.zone.get(s.term, ZERO)
            l = f.zone.get(ZERO, s.term)
            if u and l and not u[1] and not l[1] and u[0] == -l[0]:
                return bool(u[0]) if c == 'bool' else int(u[0])
    return NOCONST


def resolve(I, v):
    """Replace a symbol by its constant when known."""
    if isinstance(v, Sym):
        c = const_of(I, v)
        if c is not NOCONST:
            return c
    if isinstance(v, Cat):
        return norm_cat(I, v.parts, v.kind)
    return v


def symbolic(v):
    return isinstance(v, (Sym, Cat, XBytes))


# ---------------------------------------------------------------------- types
def type_of(I, v):
    B = I.B
    if v is None:
        return B['NoneType']
    if isinstance(v, bool):
        return B['bool']
    if isinstance(v, int):
        return B['int']
    if isinstance(v, float):
        return B['float']
    if isinstance(v, str):
        return B['str']
    if isinstance(v, bytes):
        return B['bytes']
    if isinstance(v, decimal.Decimal):
        return B['Decimal']
    if isinstance(v, Cat):
        return B['str'] if v.kind is str else B['bytes']
    if isinstance(v, XBytes):
        return B['bytes'] if v.kind is bytes else B['str']
    if isinstance(v, tuple):
        return B['tuple']
    if isinstance(v, AView):
        return B[v.kind]
    if isinstance(v, AList):
        return B['list']
    if isinstance(v, AColl):
        return B['list']
    if isinstance(v, (ADict, AbsMap)):
        return B['dict']
    if isinstance(v, ASet):
        return B['frozenset'] if v.frozen else B['set']
    if isinstance(v, (Obj,)):
        return v.cls
    if isinstance(v, Cls):
        return v.meta if isinstance(v.meta, Cls) else B['type']
    if isinstance(v, (Func, Native)):
        return B['function']
    if isinstance(v, Bound):
        return B['method']
    if isinstance(v, Partial):
        return B['partial']
    if isinstance(v, XElem):
        return I.as_class(Extern({'comment': 'lxml.etree._Comment', 'pi': 'lxml.etree._ProcessingInstruction'}.get(
            v.kind, 'lxml.etree._Element')))
    if isinstance(v, Module):
        return B['module']
    if isinstance(v, Iter):
        return B['generator']
    if isinstance(v, Slice):
        return B['slice']
    if isinstance(v, MatchObj):
        return B['Match']
    if isinstance(v, Regex):
        return B['Pattern']
    if isinstance(v, Extern):
        return B['function']
    if isinstance(v, Sym):
        ts = I.types(v)
        if ts.inc is not None and len(ts.inc) == 1:
            return next(iter(ts.inc))
        return Sym(('class', v.term), TS([B['type']]))
    return B['object']


def single_type(I, v):
    """Class name when certain, else None."""
    t = type_of(I, v)
    return t.name if isinstance(t, Cls) else None


def split(I, s, groups, labels=None):
    """Partition the possible types of a symbol by the given list of class sets; the last group is the rest."""
    ts = I.types(s)
    if ts.inc is None:
        raise Analysis('split of an unbounded type set')
    parts = []
    left = set(ts.inc)
    for g in groups:
        p = frozenset(c for c in left if any(c.issub(x) for x in g))
        left -= p
        parts.append(p)
    parts.append(frozenset(left))
    idx = [i for i, p in enumerate(parts) if p]
    c = I.choose(len(idx), [f'{show(s.term)} is {TS(parts[i])!r}' for i in idx])
    I.narrow(s, TS(parts[idx[c]]))
    return idx[c]


def isinstance_(I, v, cls):
    if isinstance(cls, tuple):
        return any(isinstance_(I, v, c) for c in cls)
    if isinstance(cls, Obj) and cls.cls.name == 'UnionType':
        return any(isinstance_(I, v, c) for c in cls.payload)
    if isinstance(cls, Extern):
        cls = I.as_class(cls)
    if isinstance(cls, Sym):
        return I.atom(('isinstance', term(I, v), cls.term))
    if not isinstance(cls, Cls):
        if isinstance(cls, Native):
            raise Analysis(f'isinstance against {cls!r}')
        I.raise_('TypeError', 'isinstance() arg 2 must be a type')
    if not isinstance(v, Sym):
        t = type_of(I, v)
        return isinstance(t, Cls) and t.issub(cls)
    ts = I.types(v)
    if ts.inc is not None:
        yes = frozenset(c for c in ts.inc if c.issub(cls))
        no = ts.inc - yes
        if not yes:
            return False
        if not no:
            return True
        k = I.choose(2, [f'{show(v.term)} is {cls.name}', f'{show(v.term)} is not {cls.name}'])
        I.narrow(v, TS(no if k else yes))
        return not k
    if any(cls.issub(x) for x in ts.exc):
        return False
    if cls is I.B['object']:
        return True
    k = I.choose(2, [f'{show(v.term)} is {cls.name}', f'{show(v.term)} is not {cls.name}'])
    if k == 0:
        subs = {cls} | {c for c in I.known_subs.get(cls.name, ()) if not any(c.issub(x) for x in ts.exc)}
        I.narrow(v, TS(subs))
        return True
    I.narrow(v, TS(None, ts.exc | {cls}))
    return False


def is_none(I, v):
    if isinstance(v, Sym):
        return isinstance_(I, v, I.B['NoneType'])
    return v is None


def cls_names(ts):
    return {c.name for c in ts.inc} if ts.inc is not None else None


def all_in(ts, names):
    """Are all possible types (builtin) within names?"""
    return ts.inc is not None and bool(ts.inc) and all(c.builtin and c.name in names for c in ts.inc)


def kind_split(I, s):
    """Force a symbol with several possible kinds into one: none, num, sized, other."""
    ts = I.types(s)
    if ts.inc is None:
        return 'any'
    groups = [[I.B['NoneType']], [I.B[n] for n in NUMERIC], [I.B[n] for n in SIZED]]
    g = split(I, s, groups)
    return ('none', 'num', 'sized', 'other')[g]


# ---------------------------------------------------------------------- truth
def truth(I, v):
    if isinstance(v, bool):
        return v
    if isinstance(v, NATIVE):
        return bool(v)
    if isinstance(v, tuple):
        return bool(v)
    if isinstance(v, Cat):
        if any(isinstance(p, (str, bytes)) for p in v.parts):
            return True
        return any(truth(I, p) for p in v.parts)
    if isinstance(v, XBytes):
        return True
    if isinstance(v, AList):
        return bool(v.items)
    if isinstance(v, (ADict, ASet)):
        return bool(v.d)
    if isinstance(v, AbsMap):
        return bool(v.known) or I.atom(('nonempty', v.term))
    if isinstance(v, AColl):
        return rel_decide(I, ('len', v.term), ZERO, 0, '>', ints=True)
    if isinstance(v, Obj):
        for n in ('__bool__', '__len__'):
            f, own = v.cls.lookup(n)
            if f is not None and not own.builtin:
                return truth(I, I.call(Bound(v, f), [], {}))
        if v.payload is not None:
            return truth(I, v.payload)
        return True
    if isinstance(v, XElem):
        return bool(v.children)
    if isinstance(v, Sym):
        c = const_of(I, v)
        if c is not NOCONST:
            return bool(c)
        ts = I.types(v)
        if ts.inc is None:
            key = ('truthy', v.term)
            r = I.atom(key)
            if r:
                ts = I.types(v)
                if ts.inc is None:
                    I.narrow(v, TS(None, ts.exc | {I.B['NoneType']}))
            return r
        k = kind_split(I, v)
        if k == 'none':
            return False
        if k == 'num':
            if all_in(I.types(v), ('bool',)):
                return bool_truth(I, v)
            return rel_decide(I, v.term, ZERO, 0, '!=', ints=all_in(I.types(v), ('bool', 'int')))
        if k == 'sized':
            return rel_decide(I, ('len', v.term), ZERO, 0, '>', ints=True)
        ts = I.types(v)
        if all(c.name in I.always_true for c in ts.inc):
            return True
        return I.atom(('truthy', v.term))
    return True


def bool_truth(I, v):
    z = I.facts.zone
    z.ints.add(v.term)
    z.assume(v.term, ZERO, 0, {'=', '>'})
    z.assume(v.term, ZERO, 1, {'<', '='})
    return rel_decide(I, v.term, ZERO, 1, '=', ints=True)


REL = {'<': {'<'}, '<=': {'<', '='}, '>': {'>'}, '>=': {'>', '='}, '=': {'='}, '!=': {'<', '>'}}


def rel_possible(I, x, y, k, ints=False, init=True):
    z = I.facts.zone
    if ints:
        for t in (x, y):
            if t != ZERO:
                z.ints.add(t)
    if init:
        for t in (x, y):
            if t != ZERO and t[0] == 'len' and z.get(ZERO, t) is None:
                z.ints.add(t)
                u = t[1]
                least = u[1] if u[0] == 'pad' else 1 if u[0] == 'str' and u[1] in z.ints else 0
                z.add(ZERO, t, -least, False)
    return z.rel(x, y, k)


def rel_decide(I, x, y, k, op, ints=False):
    """Decide (x - y) op k, adding the answer to the zone."""
    poss = rel_possible(I, x, y, k, ints)
    yes = poss & REL[op]
    no = poss - REL[op]
    if not yes:
        return False
    if not no:
        return True
    xs = show(x) if y == ZERO else f'{show(x)} - {show(y)}'
    sign = lambda s: {frozenset('<'): '<', frozenset('<='): '<=', frozenset('>'): '>', frozenset('>='): '>=',
                      frozenset('='): '==', frozenset('<>'): '!='}.get(frozenset(s), '?')
    c = I.choose(2, [f'{xs} {sign(yes)} {k}', f'{xs} {sign(no)} {k}'])
    I.facts.zone.assume(x, y, k, no if c else yes)
    return not c


# ---------------------------------------------------------------------- linear arithmetic
def lin(I, v):
    """(const, {term: coef}, is_int) or None"""
    v = resolve(I, v)
    if isinstance(v, (bool, int)):
        return (int(v), {}, True)
    if isinstance(v, float):
        n = num(v)
        return (n, {}, isinstance(n, int)) if not isinstance(n, float) else None
    if isinstance(v, decimal.Decimal):
        if not v.is_finite():
            return None
        n = num(v)
        return (n, {}, isinstance(n, int))
    if isinstance(v, Obj) and isinstance(v.payload, (int, float)) and v.payload is not None:
        return lin(I, v.payload)
    if isinstance(v, Sym):
        ts = I.types(v)
        isint = all_in(ts, ('bool', 'int'))
        if v.term[0] == 'lin':
            return (v.term[1], dict(v.term[2]), isint)
        return (0, {v.term: 1}, isint)
    return None


def from_lin(I, c, d, isint, ts=None):
    d = {t: k for t, k in d.items() if k != 0}
    # k * (x // n) ... : n*(x // n) + x % n == x
    again = True
    while again:
        again = False
        for t in list(d):
            if t[0] == 'fmod':
                q = ('fdiv', t[1], t[2])
                if d.get(q) == d[t] * t[2]:
                    k = d.pop(t)
                    d.pop(q)
                    xs = t[1]
                    if xs[0] == 'lin':
                        c = c + k * xs[1]
                        for y, kk in xs[2]:
                            d[y] = d.get(y, 0) + k * kk
                    else:
                        d[xs] = d.get(xs, 0) + k
                    d = {y: kk for y, kk in d.items() if kk != 0}
                    again = True
                    break
    if not d:
        return int(c) if isint or isinstance(c, int) else float(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return Sym(t, ts or TS([I.B['int']] if isint else [I.B['int'], I.B['float'], I.B['Decimal']]))
    return Sym(('lin', c, tuple(sorted(d.items(), key=repr))),
               ts or TS([I.B['int']] if isint else [I.B['int'], I.B['float'], I.B['Decimal']]))


def lin_compare(I, a, b, op):
    """Decide a op b for numbers in linear form."""
    la, lb = lin(I, a), lin(I, b)
    if la is None or lb is None:
        return inf_compare(I, a, b, op)
    c = la[0] - lb[0]
    d = dict(la[1])
    for t, k in lb[1].items():
        d[t] = d.get(t, 0) - k
    d = {t: k for t, k in d.items() if k}
    ints = la[2] and lb[2]
    if not d:
        r = '<' if c < 0 else '>' if c > 0 else '='
        return r in REL[op]
    if len(d) == 1:
        (t, k), = d.items()
        if abs(k) != 1:
            c = Fraction(c) / abs(k)
            c = int(c) if c.denominator == 1 else c
            d = {t: 1 if k > 0 else -1}
    if ints and len(d) > 1 and all(isinstance(q, int) for q in d.values()):
        g = math.gcd(*[abs(q) for q in d.values()])
        if g > 1:
            c = Fraction(c) / g
            c = int(c) if c.denominator == 1 else c
            d = {t: q // g for t, q in d.items()}
    x, y, k, flip = lin_atom(d, c)
    if ints and x[0] == 'lin' and y == ZERO:
        lo, hi = term_bounds(I, x)
        z = I.facts.zone
        z.ints.add(x)
        if lo is not None:
            z.assume(x, ZERO, lo, {'>', '='})
        if hi is not None:
            z.assume(x, ZERO, hi, {'<', '='})
    if flip:
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '=': '=', '!=': '!='}[op]
    return rel_decide(I, x, y, k, op, ints=ints)


def lin_atom(d, c):
    """sum(d) + c  ->  (x, y, k, flip) with  x - y  compared to k."""
    items = sorted(d.items(), key=lambda p: repr(p[0]))
    if len(items) == 1:
        (t, k), = items
        if k == 1:
            return t, ZERO, -c, False
        if k == -1:
            return t, ZERO, c, True
    if len(items) == 2 and sorted((items[0][1], items[1][1])) == [-1, 1]:
        pos = next(t for t, k in items if k == 1)
        neg = next(t for t, k in items if k == -1)
        return pos, neg, -c, False
    # general: normalise sign on the first coefficient
    flip = items[0][1] < 0
    if flip:
        items = [(t, -k) for t, k in items]
        c = -c
    return ('lin', 0, tuple(items)), ZERO, -c, flip


def inf_compare(I, a, b, op):
    """Comparisons with an infinite constant."""
    def isinf(v):
        v = resolve(I, v)
        return isinstance(v, (float, decimal.Decimal)) and not isinstance(v, bool) and v in (
            float('inf'), float('-inf'))
    a, b = resolve(I, a), resolve(I, b)
    if isinf(a) and isinf(b):
        x, y = float(a), float(b)
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '=': x == y, '!=': x != y}[op]
    if isinf(a):
        return inf_compare(I, b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '=': '=', '!=': '!='}[op])
    if isinf(b):
        pos = b > 0
        if isinstance(a, Sym) and not all_in(I.types(a), ('bool', 'int')):
            eq = I.atom(('isinf' if pos else 'isneginf', a.term))
        elif isinstance(a, Sym) and isinstance(I.facts.truth.get(('isinf', a.term)), bool):
            eq = I.facts.truth[('isinf', a.term)]
        else:
            eq = False
        return {'=': eq, '!=': not eq, '<': pos and not eq, '<=': pos or eq, '>': (not pos) and not eq,
                '>=': (not pos) or eq}[op]
    return I.atom(('cmp', op, term(I, a), term(I, b)))


# ---------------------------------------------------------------------- comparison
def native_of(v):
    """Underlying constant of enum members and str/int subclasses."""
    if isinstance(v, Obj) and isinstance(v.payload, NATIVE) and v.payload is not None:
        return v.payload
    return v


def compare(I, op, a, b):
    if op == 'Is':
        return is_(I, a, b)
    if op == 'IsNot':
        return not is_(I, a, b)
    if op == 'Eq':
        return eq(I, a, b)
    if op == 'NotEq':
        if isinstance(a, Obj):
            f, own = a.cls.lookup('__ne__')
            if f is not None and not own.builtin:
                return I.call(Bound(a, f), [b], {})
        r = eq(I, a, b)
        return not truth(I, r)
    if op == 'In':
        return contains(I, b, a)
    if op == 'NotIn':
        return not contains(I, b, a)
    return order(I, {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op], a, b)


def is_(I, a, b):
    a, b = resolve(I, a), resolve(I, b)
    if a is b:
        return True
    if isinstance(b, Sym) and not isinstance(a, Sym):
        a, b = b, a
    if isinstance(a, Sym):
        if b is None:
            return is_none(I, a)
        if isinstance(b, bool):
            if not isinstance_(I, a, I.B['bool']):
                return False
            return bool_truth(I, a) == b
        if isinstance(b, Sym):
            if a.term == b.term:
                return True
            return I.atom(('is',) + tuple(sorted((a.term, b.term), key=repr)))
        if isinstance(b, (Cls,)) and a.term[0] == 'class':
            return I.atom(('is', a.term, b.key()))
        if isinstance(b, Obj):
            ts = I.types(a)
            if ts.inc is not None and b.cls not in ts.inc:
                return False
            if ts.inc is None and any(b.cls.issub(x) for x in ts.exc):
                return False
            r = I.atom(('is', a.term, ('obj', b.ident)))
            return r
        if isinstance(b, NATIVE):
            return truth(I, eq(I, a, b))
        return False
    if isinstance(a, NATIVE) and isinstance(b, NATIVE):
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            return a is b
        return type(a) is type(b) and a == b
    if isinstance(a, Extern) and isinstance(b, Extern):
        return a.name == b.name
    if isinstance(a, Bound) and isinstance(b, Bound):
        return False
    return False


def eq(I, a, b):
    a, b = resolve(I, a), resolve(I, b)
    if isinstance(a, AView) or isinstance(b, AView):
        if isinstance(a, AView) and isinstance(b, AView) and a.kind == b.kind == 'dict_items':
            return eq(I, I.new_set(list(a.items)), I.new_set(list(b.items)))
        return a is b
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj):
            f, own = x.cls.lookup('__eq__')
            if f is not None and not own.builtin:
                r = I.call(Bound(x, f), [y], {})
                if r is not NotImplemented:
                    return r
    if I.eq_hook is not None and (isinstance(a, Obj) or isinstance(b, Obj)):
        r = I.eq_hook(I, a, b)
        if r is not None:
            return r
    a, b = native_of(a), native_of(b)
    if isinstance(a, NATIVE) and isinstance(b, NATIVE):
        return a == b
    if isinstance(a, tuple) or isinstance(b, tuple):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(truth(I, eq(I, x, y)) for x, y in zip(a, b))
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return False
    la, lb = seq_items(a), seq_items(b)
    if la is not None and lb is not None:
        return len(la) == len(lb) and all(truth(I, eq(I, x, y)) for x, y in zip(la, lb))
    if isinstance(b, Sym) and not isinstance(a, Sym):
        a, b = b, a
    if isinstance(a, Sym):
        return eq_sym(I, a, b)
    if isinstance(a, Cat) or isinstance(b, Cat):
        return eq_cat(I, a, b)
    if isinstance(a, XBytes) and isinstance(b, XBytes):
        if a.tree == b.tree:
            return True
        if trees_differ(a.tree, b.tree):
            return False
        return I.atom(('eq',) + tuple(sorted((a.term, b.term), key=repr)))
    if isinstance(a, ADict) and isinstance(b, ADict):
        if set(a.d) != set(b.d):
            return False
        return all(truth(I, eq(I, a.d[k][1], b.d[k][1])) for k in a.d)
    if isinstance(a, ASet) and isinstance(b, ASet):
        return set(a.d) == set(b.d)
    if isinstance(a, Extern) and isinstance(b, Extern):
        return a.name == b.name
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.self_ is b.self_ and a.func is b.func
    return False


def trees_differ(a, b):
    """whether two snapshots of XML surely serialise differently"""
    if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == 'el'):
        return False
    if a[1] != b[1] or isinstance(a[2], str) and isinstance(b[2], str) and a[2] != b[2]:
        return True
    if a[7] is None and b[7] is None:
        xs, ys = dict(a[3]), dict(b[3])
        if all(isinstance(k, str) for k in [*xs, *ys]):
            if set(xs) != set(ys):
                return True
            if any(isinstance(xs[k], str) and isinstance(ys[k], str) and xs[k] != ys[k] for k in xs):
                return True
    return len(a[5]) != len(b[5]) or any(trees_differ(x, y) for x, y in zip(a[5], b[5]))


def seq_items(v):
    if isinstance(v, AList):
        return v.items
    if isinstance(v, Obj) and isinstance(v.payload, AList):
        return v.payload.items
    return None


def eq_sym(I, a, b):
    """a is a Sym without known constant."""
    f = I.facts
    if isinstance(b, Sym):
        if a.term == b.term:
            return True
        ta, tb = I.types(a), I.types(b)
        if all_in(ta, NUMERIC) and all_in(tb, NUMERIC):
            return lin_compare(I, a, b, '=')
        if ta.inc is not None and tb.inc is not None:
            # types that can never be equal
            na, nb = cls_names(ta), cls_names(tb)
            fam = lambda n: {'num' if x in NUMERIC else x for x in n}
            if not (fam(na) & fam(nb)) and not ({'opaque', 'object'} & (na | nb)):
                return False
        if a.term[0] in ('pad', 'str') and b.term[0] in ('pad', 'str'):
            na, nb = number_field(I, a), number_field(I, b)
            if na and nb:
                return eq_field(I, (na, a), (nb, b))
        key = ('eq',) + tuple(sorted((a.term, b.term), key=repr))
        return I.atom(key)
    if b is None:
        return is_none(I, a)
    ts = I.types(a)
    if isinstance(b, (bool, int, float, decimal.Decimal)):
        if ts.inc is not None and not any(c.name in NUMERIC or not c.builtin or c.name == 'opaque' for c in ts.inc):
            return False
        if not all_in(ts, NUMERIC):
            if ts.inc is None:
                key = ('eqnum', a.term, num(b))
                if key in f.truth:
                    return f.truth[key]
                if I.choose(2, [f'{show(a.term)} == {b!r}', f'{show(a.term)} != {b!r}']):
                    f.truth[key] = False
                    return False
                f.truth[key] = True
                I.narrow(a, TS([c for c in (I.B[n] for n in NUMERIC)
                                if not any(c.issub(x) for x in ts.exc)
                                and (c.name != 'bool' or b in (0, 1))]))
                if not numeric_inf(b):
                    f.zone.assume(a.term, ZERO, num(b), {'='})
                return True
            g = split(I, a, [[I.B[n] for n in NUMERIC]])
            if g == 1:
                return False
        if all_in(I.types(a), ('bool',)):
            if b not in (0, 1):
                return False
            return bool_truth(I, a) == bool(b)
        return lin_compare(I, a, b, '=')
    if isinstance(b, (str, bytes, Cat, XBytes)):
        want = type_of(I, b)
        if ts.inc is not None:
            ok = frozenset(c for c in ts.inc if c.issub(want) or c.name == 'opaque' or not c.builtin)
            if not ok:
                return False
        elif any(want.issub(x) for x in ts.exc):
            return False
        if isinstance(b, Cat):
            ta = field_tokens(I, a)
            tb = field_tokens(I, b) if ta is not None else None
            if tb is not None:
                return eq_tokens(I, ta, tb)
            key = ('eq', a.term, b.term)
            r = I.atom(key)
            return r
        if isinstance(b, str) and a.term[0] in ('pad', 'str', 'digits', 'numdigits') and not re.fullmatch(cat_regex(I, a), b):
            return False
        if isinstance(b, XBytes):
            return I.atom(('eq', a.term, b.term))
        if b in f.notconst.get(a.term, ()):
            return False
        for t, c in f.const.items():
            if c == b and t != a.term and f.truth.get(('eq',) + tuple(sorted((a.term, t), key=repr))) is False:
                f.notconst.setdefault(a.term, set()).add(b)
                return False
        # lengths
        if I.choose(2, [f'{show(a.term)} == {b!r}', f'{show(a.term)} != {b!r}']) == 0:
            if ts.inc is not None:
                I.narrow(a, TS([c for c in ts.inc if c.issub(want)] or ts.inc))
            else:
                I.narrow(a, TS([want]))
            f.const[a.term] = b
            lt = ('len', a.term)
            rel_possible(I, lt, ZERO, 0, ints=True)
            f.zone.assume(lt, ZERO, len(b), {'='})
            return True
        f.notconst.setdefault(a.term, set()).add(b)
        if len(b) == 0 and all_in(I.types(a), ('str', 'bytes')):
            lt = ('len', a.term)
            rel_possible(I, lt, ZERO, 0, ints=True)
            f.zone.assume(lt, ZERO, 0, {'>'})
        return False
    if isinstance(b, Cls):
        if a.term[0] == 'class' or ts.inc is None or I.B['type'] in ts.inc:
            return I.atom(('eq', a.term, b.key()))
        return False
    if isinstance(b, Obj):
        if ts.inc is not None and not any(c.issub(b.cls) or c.name == 'opaque' for c in ts.inc):
            return False
        return I.atom(('eq', a.term, term(I, b)))
    return I.atom(('eq', a.term, term(I, b)))


def numeric_inf(b):
    return isinstance(b, (float, decimal.Decimal)) and b in (float('inf'), float('-inf'))


def number_field(I, p):
    """A part that can only be a non-negative numeral: (minimal width, term of the number or None)."""
    if not isinstance(p, Sym):
        return None
    t = p.term
    if t[0] in ('numdigits',):
        return (1, None)
    if t[0] in ('pad', 'str'):
        x = t[-1]
        if t[0] == 'str' and not all_in(I.facts.types.get(x) or TS(None), ('int',)):
            return None
        if '<' in rel_possible(I, x, ZERO, 0, ints=True):
            return None
        return (t[1] if t[0] == 'pad' else 1, x)
    return None


def field_tokens(I, s):
    """Digit-free literals alternating with numerals, or None."""
    out = []
    for p in s.parts if isinstance(s, Cat) else [s]:
        if isinstance(p, str):
            for run in re.findall(r'[0-9]+|[^0-9]+', p):
                if run[0] in '0123456789':
                    if out and not isinstance(out[-1], str):
                        return None
                    out.append((None, run))
                else:
                    out.append(run)
        else:
            n = number_field(I, p)
            if n is None or (out and not isinstance(out[-1], str)):
                return None
            out.append((n, p))
    return out


def eq_field(I, a, b):
    """Equality of two numerals as texts."""
    if a[0] is None and b[0] is None:
        return a[1] == b[1]
    if a[0] is None:
        a, b = b, a
    if b[0] is None:
        (w, x), p = a
        if x is None:
            return I.atom(('eq', p.term, ('c', b[1])))
        if len(b[1]) != max(w, len(str(int(b[1])))):
            return False
        return truth(I, eq(I, Sym(x, TS([I.B['int']])), int(b[1])))
    (wa, xa), pa = a
    (wb, xb), pb = b
    if pa.term == pb.term:
        return True
    if xa is None or xb is None:
        return I.atom(('eq',) + tuple(sorted((pa.term, pb.term), key=repr)))
    if xa == xb:
        return wa == wb or rel_decide(I, xa, ZERO, 10 ** (max(wa, wb) - 1), '>=', ints=True)
    ints = TS([I.B['int']])
    if wa == wb:
        return truth(I, eq(I, Sym(xa, ints), Sym(xb, ints)))
    if not truth(I, eq(I, Sym(xa, ints), Sym(xb, ints))):
        return False
    return rel_decide(I, xa, ZERO, 10 ** (max(wa, wb) - 1), '>=', ints=True)


def eq_tokens(I, ta, tb):
    if len(ta) != len(tb):
        return False
    if [x if isinstance(x, str) else 0 for x in ta] != [x if isinstance(x, str) else 0 for x in tb]:
        return False
    if any(not isinstance(x, str) and x[0] is None and y[0] is None and x[1] != y[1] for x, y in zip(ta, tb)):
        return False
    return all(isinstance(x, str) or eq_field(I, x, y) for x, y in zip(ta, tb))


def cat_regex(I, a):
    out = ''
    for p in a.parts if isinstance(a, Cat) else [a]:
        if isinstance(p, str):
            out += re.escape(p)
        elif isinstance(p, Sym) and (p.term[0] in ('pad', 'numdigits', 'digits') or p.term[0] == 'str' and all_in(
                I.facts.types.get(p.term[1]) or TS(None), ('int',))):
            out += ('' if number_field(I, p) else '-?') + '[0-9]+'
        else:
            out += '.*'
    return out


def eq_cat(I, a, b):
    if not isinstance(a, Cat):
        a, b = b, a
    if a.kind is str and isinstance(b, (Cat, Sym)):
        ta = field_tokens(I, a)
        tb = field_tokens(I, b) if ta is not None else None
        if tb is not None:
            return eq_tokens(I, ta, tb)
    if isinstance(b, str) and a.kind is str and not re.fullmatch(cat_regex(I, a), b, re.S):
        return False
    if isinstance(b, Cat):
        if a.term == b.term:
            return True
        # strip common prefix / suffix
        pa, pb = list(a.parts), list(b.parts)
        while pa and pb and pa[0] == pb[0]:
            pa.pop(0)
            pb.pop(0)
        while pa and pb and pa[-1] == pb[-1]:
            pa.pop()
            pb.pop()
        if not pa and not pb:
            return True
        if len(pa) == len(pb) == 1:
            return eq(I, pa[0], pb[0])
        if pa and pb and isinstance(pa[0], (str, bytes)) and isinstance(pb[0], (str, bytes)):
            n = min(len(pa[0]), len(pb[0]))
            if pa[0][:n] != pb[0][:n]:
                return False
        return I.atom(('eq',) + tuple(sorted((a.term, b.term), key=repr)))
    if isinstance(b, (str, bytes)):
        if type(b) is not a.kind:
            return False
        if isinstance(a.parts[0], (str, bytes)) and not b.startswith(a.parts[0]):
            return False
        if isinstance(a.parts[-1], (str, bytes)) and not b.endswith(a.parts[-1]):
            return False
        if sum(len(p) for p in a.parts if isinstance(p, (str, bytes))) > len(b):
            return False
        # a single unknown part: reduce to that part
        unk = [p for p in a.parts if not isinstance(p, (str, bytes))]
        if len(unk) == 1:
            i = a.parts.index(unk[0])
            pre = a.parts[0] if i == 1 else b[:0]
            suf = a.parts[-1] if i < len(a.parts) - 1 else b[:0]
            if len(a.parts) <= 3:
                return eq(I, unk[0], b[len(pre):len(b) - len(suf)])
        return I.atom(('eq', a.term, ('c', b)))
    if b is None or isinstance(b, NATIVE):
        return False
    return False


def order(I, op, a, b):
    a, b = resolve(I, a), resolve(I, b)
    names = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
    refl = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
    if isinstance(a, Obj):
        f, own = a.cls.lookup(names[op])
        if f is not None and not own.builtin:
            return I.call(Bound(a, f), [b], {})
    if isinstance(b, Obj):
        f, own = b.cls.lookup(names[refl[op]])
        if f is not None and not own.builtin:
            return I.call(Bound(b, f), [a], {})
    a, b = native_of(a), native_of(b)
    if isinstance(a, NATIVE) and isinstance(b, NATIVE):
        try:
            return {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op](a, b)
        except TypeError as e:
            I.raise_('TypeError', str(e))
    if isinstance(a, ASet) and isinstance(b, ASet):
        x, y = set(a.d), set(b.d)
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if not truth(I, eq(I, x, y)):
                return order(I, op, x, y)
        return order(I, op, len(a), len(b))
    # numbers
    ka, kb = num_kind(I, a), num_kind(I, b)
    if ka == 'num' and kb == 'num':
        return lin_compare(I, a, b, op)
    if ka == 'none' or kb == 'none' or (ka != kb and 'any' not in (ka, kb) and 'other' not in (ka, kb)):
        I.raise_('TypeError', f"'{op}' not supported between these types")
    if (ka == 'num' and kb in ('any', 'other')) or (kb == 'num' and ka in ('any', 'other')):
        if 'any' in (ka, kb):
            return lin_compare(I, a, b, op)
    if ka == 'delta' and kb == 'delta':
        return lin_compare(I, delta_secs(I, a), delta_secs(I, b), op)
    # canonical atom: lt(a,b) / lt(b,a)
    ta, tb = term(I, a), term(I, b)
    if ta == tb:
        return op in ('<=', '>=')
    if op in ('>', '<='):
        ta, tb = tb, ta
    r = I.atom(('lt', ta, tb))
    return r if op in ('<', '>') else not r


def delta_secs(I, v):
    return I.getattr(v, '__total__')


def num_kind(I, v):
    if isinstance(v, (bool, int, float, decimal.Decimal)):
        return 'num'
    if v is None:
        return 'none'
    if isinstance(v, (str, Cat)):
        return 'str'
    if isinstance(v, bytes):
        return 'bytes'
    if isinstance(v, Obj):
        if v.cls.name == 'timedelta':
            return 'delta'
        return 'obj'
    if isinstance(v, Sym):
        ts = I.types(v)
        if ts.inc is None:
            return 'any'
        if all_in(ts, NUMERIC):
            return 'num'
        B = I.B
        g = split(I, v, [[B['NoneType']], [B[n] for n in NUMERIC], [B['str']], [B['bytes']], [B['timedelta']]])
        return ('none', 'num', 'str', 'bytes', 'delta', 'other')[g]
    return 'obj'


def contains(I, coll, x):
    coll = resolve(I, coll)
    if isinstance(coll, Obj):
        f, own = coll.cls.lookup('__contains__')
        if f is not None and not own.builtin:
            return truth(I, I.call(Bound(coll, f), [x], {}))
        if coll.payload is not None:
            return contains(I, coll.payload, x)
        f, own = coll.cls.lookup('__iter__')
        if f is not None:
            return any(truth(I, eq(I, x, y)) for y in iterate(I, coll))
    if isinstance(coll, (tuple, AList)):
        items = coll if isinstance(coll, tuple) else coll.items
        return any(x is y or truth(I, eq(I, x, y)) for y in items)
    if isinstance(coll, ASet):
        if len(coll.d) > 20 and all(isinstance(key_value(coll.d, k), str) for k in coll.d):
            x = resolve(I, native_of(x))
            if isinstance(x, Sym) and all_in(I.types(x), ('str',)):
                # one of many constants: which one makes no difference until it is compared
                return I.atom(('one-of', x.term, tuple(sorted(key_value(coll.d, k) for k in coll.d))), f'{show(x.term)} is one of {len(coll.d)} constants')
        return find_key(I, coll.d, x) is not None
    if isinstance(coll, ADict):
        return find_key(I, coll.d, x) is not None
    if isinstance(coll, MapKeys):
        return has_key(I, coll.map, x)
    if isinstance(coll, AbsMap):
        return has_key(I, coll, x)
    if isinstance(coll, AColl):
        return coll_contains(I, coll, x)
    if isinstance(coll, Iter):
        return any(truth(I, eq(I, x, y)) for y in coll.gen)
    if isinstance(coll, Cls) and '__members_list__' in coll.attrs:
        return any(truth(I, eq(I, x, y)) for y in coll.attrs['__members_list__'])
    if isinstance(coll, (str, bytes)) or isinstance(coll, Cat) or isinstance(coll, XBytes):
        return str_contains(I, coll, x)
    if isinstance(coll, Sym):
        ts = I.types(coll)
        if ts.inc is not None:
            k = kind_split(I, coll)
            if k in ('none', 'num'):
                I.raise_('TypeError', 'argument is not iterable')
            if all_in(I.types(coll), ('str', 'bytes')):
                return str_contains(I, coll, x)
        x = resolve(I, x)
        return I.atom(('in', term(I, x), coll.term))
    if isinstance(coll, XElem):
        return any(c is x for c in coll.children)
    if coll is None or isinstance(coll, NATIVE):
        I.raise_('TypeError', 'argument is not iterable')
    if isinstance(coll, Extern):
        return I.atom(('in', term(I, x), ('extern', coll.name)))
    raise Analysis(f'membership in {coll!r}')


def coll_contains(I, coll, x):
    for i, y in enumerate(iterate(I, coll)):
        if x is y or truth(I, eq(I, x, y)):
            return True
    return False


def str_contains(I, s, x):
    x = resolve(I, native_of(x))
    if isinstance(s, (str, bytes)) and isinstance(x, (str, bytes)):
        try:
            return x in s
        except TypeError as e:
            I.raise_('TypeError', str(e))
    if x is None or isinstance(x, (bool, int, float)) and isinstance(s, (str, Cat)):
        I.raise_('TypeError', "'in <string>' requires string as left operand")
    if isinstance(x, Sym):
        ts = I.types(x)
        if ts.inc is not None and not all_in(ts, ('str', 'bytes')):
            k = split(I, x, [[I.B['str'], I.B['bytes']]])
            if k == 1:
                I.raise_('TypeError', "'in <string>' requires string as left operand")
    if isinstance(s, Cat) and isinstance(x, str):
        if any(isinstance(p, str) and x in p for p in s.parts):
            return True
        if len(x) == 1:
            return any(str_contains(I, p, x) for p in s.parts if not isinstance(p, str))
    if isinstance(s, Cat) and isinstance(x, (Sym, Cat)) and x in s.parts:
        return True
    if isinstance(s, (str,)) and len(s) == 0:
        return truth(I, eq(I, x, ''))
    if isinstance(x, str) and isinstance(s, Sym):
        r = string_property(I, s.term, x)
        if r is not None:
            return r
    return I.atom(('contains', term(I, s), term(I, x)))


def string_property(I, t, x):
    """Facts about derived strings: str(int) holds digits and '-' only."""
    if t[0] in ('digits', 'numdigits') and not x.isdigit() and x:
        return False
    if t[0] == 'ws' and any(c in t[2] for c in x):
        return False
    if t[0] == 'str':
        inner = Sym(t[1])
        ts = I.facts.types.get(t[1])
        if ts is not None and all_in(ts, ('int',)):
            if x == '-':
                return rel_decide(I, t[1], ZERO, 0, '<', ints=True)
            if not x.isdigit():
                return False
    return None


def find_key(I, d, x):
    """Find the entry of a dict/set equal to x; returns the keyterm or None."""
    x = resolve(I, native_of(x) if isinstance(x, Obj) and x.payload is not None and isinstance(x.payload, NATIVE) else x)
    kt = keyterm(I, x)
    if kt in d:
        return kt
    if isinstance(x, (Sym, Cat)):
        for k in list(d):
            kv = d[k][0] if isinstance(d[k], tuple) and len(d[k]) == 2 and isinstance(d, dict) and k not in ('', ) else None
            if truth(I, eq(I, x, key_value(d, k))):
                return k
        return None
    # constant key against symbolic entries
    for k in list(d):
        kv = key_value(d, k)
        if isinstance(kv, (Sym, Cat)) and not isinstance(x, Obj):
            if truth(I, eq(I, kv, x)):
                return k
    return None


def key_value(d, k):
    e = d[k]
    return e[0] if isinstance(e, Entry) or isinstance(e, tuple) else e


class Entry(tuple):
    pass


def has_key(I, m, x):
    x = resolve(I, native_of(x))
    kt = keyterm(I, x)
    if kt in m.known:
        return True
    return I.atom(('haskey', m.term, term(I, x)), f'{show(m.term)} has key {x!r}')


def map_value(I, m, x):
    x = resolve(I, native_of(x))
    kt = keyterm(I, x)
    if kt in m.known:
        return m.known[kt][1]
    if m.valfn is not None:
        return m.valfn(I, term(I, x), x)
    return Sym(('key', m.term, term(I, x)))


# ---------------------------------------------------------------------- iteration
def iterate(I, v):
    """Host iterator over an abstract iterable."""
    v = resolve(I, v)
    if isinstance(v, tuple):
        return iter(v)
    if isinstance(v, AList):
        return list_iter(v.items)
    if isinstance(v, Iter):
        return v.gen
    if isinstance(v, ADict):
        return iter([e[0] for e in v.d.values()])
    if isinstance(v, ASet):
        return iter(list(v.d.values()))
    if isinstance(v, str):
        return iter(v)
    if isinstance(v, bytes):
        return iter(v)
    if isinstance(v, AColl):
        return coll_iter(I, v)
    if isinstance(v, XElem):
        return list_iter(v.children)
    if isinstance(v, MapKeys):
        return iterate(I, v.map)
    if isinstance(v, AbsMap):
        return map_iter(I, v)
    if isinstance(v, Cls) and '__members_list__' in v.attrs:
        return iter(v.attrs['__members_list__'])
    if isinstance(v, Obj):
        f, own = v.cls.lookup('__iter__')
        if f is not None and not own.builtin:
            it = I.call(Bound(v, f), [], {})
            if isinstance(it, Obj) and it.cls.lookup('__next__')[0] is not None:
                return next_iter(I, it, it.cls.lookup('__next__')[0])
            return iterate(I, it)
        f, own = v.cls.lookup('__next__')
        if f is not None and not own.builtin:
            return next_iter(I, v, f)
        if v.payload is not None:
            return iterate(I, v.payload)
        if v.cls.name == 'Match':
            I.raise_('TypeError', 'not iterable')
        I.raise_('TypeError', f'{v.cls.name} object is not iterable')
    if isinstance(v, Sym):
        ts = I.types(v)
        if ts.inc is not None:
            k = kind_split(I, v)
            if k in ('none', 'num'):
                I.raise_('TypeError', 'object is not iterable')
        return sym_iter(I, v)
    if v is None or isinstance(v, NATIVE):
        I.raise_('TypeError', f'{type(v).__name__} object is not iterable')
    if isinstance(v, Cat):
        raise Cut('iteration over an abstract string')
    raise Analysis(f'iteration over {v!r}')


def list_iter(items):
    i = 0
    while i < len(items):
        yield items[i]
        i += 1


def next_iter(I, v, f):
    while True:
        try:
            x = I.call(Bound(v, f), [], {})
        except AbsRaise as e:
            if isinstance(e.exc, Obj) and e.exc.cls.name == 'StopIteration':
                return
            raise
        yield x


def more(I, t, i, limit, minlen=0):
    if i < minlen:
        return True
    lt = ('len', t)
    poss = rel_possible(I, lt, ZERO, i, ints=True)
    if i >= limit:
        if '=' not in poss and '<' not in poss:
            raise Cut(f'collection {show(t)} longer than the k-limit', silent=True)
        I.facts.zone.assume(lt, ZERO, i, {'<', '='})
        I.data['klimited'] = True
        return False
    return rel_decide(I, lt, ZERO, i, '>', ints=True)


def at_least(I, t, n):
    lt = ('len', t)
    I.facts.zone.ints.add(lt)
    I.facts.zone.assume(lt, ZERO, n, {'>', '='})


def coll_iter(I, v):
    i = 0
    limit = v.maxlen if v.maxlen is not None else I.loop_limit
    while more(I, v.term, i, limit, v.minlen):
        yield coll_elem(I, v, i)
        i += 1


def coll_elem(I, v, i):
    if i not in v.cache:
        I.setd(v.cache, i, v.elem(I, i))
    return v.cache[i]


def sym_iter(I, v):
    i = 0
    while more(I, v.term, i, I.loop_limit):
        e = I.hooks.get(('elem', v.term))
        yield e(I, i) if e else Sym(('elem', v.term, i))
        i += 1


def map_iter(I, m):
    for k, val in list(m.known.values()):
        yield k
    i = 0
    while more(I, ('keys', m.term), i, I.loop_limit):
        yield Sym(('elem', ('keys', m.term), i), TS([I.B['str']]))
        i += 1


def unpack(I, v, n):
    if isinstance(v, Sym) and I.types(v).inc is None:
        return [Sym(('elem', v.term, i)) for i in range(n)]
    items = list(iterate(I, v)) if not (isinstance(v, Sym)) else [Sym(('elem', v.term, i)) for i in range(n)]
    if len(items) != n:
        I.raise_('ValueError', 'not enough/too many values to unpack')
    return items


def length(I, v):
    v = resolve(I, v)
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, AList):
        return len(v.items)
    if isinstance(v, (ADict, ASet)):
        return len(v.d)
    if isinstance(v, XElem):
        return len(v.children)
    if isinstance(v, AColl):
        rel_possible(I, ('len', v.term), ZERO, 0, ints=True)
        return Sym(('len', v.term), TS([I.B['int']]))
    if isinstance(v, (AbsMap, MapKeys, XBytes)):
        return Sym(('len', v.term if not isinstance(v, MapKeys) else v.map.term), TS([I.B['int']]))
    if isinstance(v, Cat):
        total = 0
        d = {}
        for p in v.parts:
            if isinstance(p, (str, bytes)):
                total += len(p)
            else:
                d[('len', p.term)] = d.get(('len', p.term), 0) + 1
        for t in d:
            rel_possible(I, t, ZERO, 0, ints=True)
        return from_lin(I, total, d, True)
    if isinstance(v, Obj):
        f, own = v.cls.lookup('__len__')
        if f is not None and not own.builtin:
            return I.call(Bound(v, f), [], {})
        if v.payload is not None:
            return length(I, v.payload)
        I.raise_('TypeError', f"object of type '{v.cls.name}' has no len()")
    if isinstance(v, Sym):
        ts = I.types(v)
        if ts.inc is not None:
            k = kind_split(I, v)
            if k in ('none', 'num'):
                I.raise_('TypeError', 'object has no len()')
        rel_possible(I, ('len', v.term), ZERO, 0, ints=True)
        return Sym(('len', v.term), TS([I.B['int']]))
    I.raise_('TypeError', f'object of type {type(v).__name__} has no len()')


# ---------------------------------------------------------------------- strings
def norm_cat(I, parts, kind=str):
    out = []
    for p in parts:
        if isinstance(p, Sym):
            c = const_of(I, p)
            if isinstance(c, (str, bytes)) and not (c is NOCONST):
                p = c
        if isinstance(p, Cat):
            sub = p.parts
        else:
            sub = (p,)
        for q in sub:
            if isinstance(q, (str, bytes)):
                if not q:
                    continue
                if out and isinstance(out[-1], (str, bytes)):
                    out[-1] = out[-1] + q
                    continue
            out.append(q)
    if not out:
        return kind()
    if len(out) == 1:
        return out[0]
    return Cat(out, kind)


def concat(I, parts):
    return norm_cat(I, parts)


def as_text(I, v):
    """v if it certainly is str-like (const, Cat, str Sym, enum payload), else None."""
    v = resolve(I, native_of(v))
    if isinstance(v, (str, Cat)):
        return v
    if isinstance(v, Sym) and all_in(I.types(v), ('str',)):
        return v
    if isinstance(v, XBytes) and v.kind is str:
        return Sym(v.term, TS([I.B['str']]))
    return None


def str_(I, v):
    v0 = v
    v = resolve(I, v)
    if isinstance(v, Obj):
        if v.cls.attrs.get('__members_list__') is not None:
            f, own = v.cls.lookup('__str__')
            if f is not None and not own.builtin:
                return I.call(Bound(v, f), [], {})
            if any(c.name in ('StrEnum', 'IntEnum') for c in v.cls.mro):
                return str(v.payload)
            return f'{v.cls.name}.{v.attrs["name"]}'
        f, own = v.cls.lookup('__str__')
        if f is not None and not own.builtin:
            return I.call(Bound(v, f), [], {})
        if isinstance(v.payload, str):
            return v.payload
        f, own = v.cls.lookup('__repr__')
        if f is not None and not own.builtin:
            return I.call(Bound(v, f), [], {})
        if isinstance(v.payload, NATIVE) and v.payload is not None:
            return str(v.payload)
        if v.cls.issub(I.B['BaseException']):
            a = v.attrs.get('args', ())
            if len(a) == 1:
                return str_(I, a[0])
        return Sym(('str', term(I, v)), TS([I.B['str']]))
    if isinstance(v, (str, Cat)):
        return v
    if isinstance(v, NATIVE):
        return str(v)
    if isinstance(v, Sym):
        if all_in(I.types(v), ('str',)):
            return v
        ts = I.types(v)
        if ts.inc is not None and len(ts.inc) > 1 and I.B['str'] in ts.inc:
            if isinstance_(I, v, I.B['str']):
                return v
        n = numeral(I, v)
        if n is not None:
            return n
        if all_in(ts, ('int',)):
            I.facts.types.setdefault(v.term, ts)
        return Sym(('str', v.term), TS([I.B['str']]))
    return Sym(('str', term(I, v)), TS([I.B['str']]))


def numeral(I, v):
    """The text of a number whose decimal shape (sign, integer digits, fraction digits) is known on this trace."""
    shapes = I.data.get('numerals')
    if not shapes:
        return None
    ln = lin(I, v)
    if ln is None or ln[0] != 0 or len(ln[1]) != 1:
        return None
    (t, k), = ln[1].items()
    if abs(k) != 1 or t not in shapes:
        return None
    neg, frac = shapes[t]
    if k < 0:
        neg = not neg
    S = TS([I.B['str']])
    parts = ['-'] if neg else []
    parts.append(Sym(('numdigits', t, 'int'), S))
    if frac:
        parts += ['.', Sym(('numdigits', t, 'frac'), S)]
    return norm_cat(I, parts)


def repr_(I, v):
    v = resolve(I, v)
    if isinstance(v, NATIVE):
        return repr(v)
    if isinstance(v, Sym) and all_in(I.types(v), ('int', 'float')):
        n = numeral(I, v)
        if n is not None:
            return n
    whole = repr_container(I, v)
    if whole is not None:
        return whole
    return Sym(('repr', term(I, v)), TS([I.B['str']]))


def repr_container(I, v):
    """the text of a list, tuple or dict, made of the texts of what it holds"""
    if isinstance(v, AList) and type(v.items) is list:
        left, parts, right = '[', v.items, ']'
    elif isinstance(v, tuple):
        left, parts, right = '(', v, ',)' if len(v) == 1 else ')'
    elif isinstance(v, ADict):
        out = ['{']
        for i, (k, x) in enumerate(v.d.values()):
            out += ([', '] if i else []) + [repr_(I, k), ': ', repr_(I, x)]
        return norm_cat(I, out + ['}'])
    else:
        return None
    out = [left]
    for i, x in enumerate(parts):
        out += ([', '] if i else []) + [repr_(I, x)]
    return norm_cat(I, out + [right])


def format_(I, v, spec=''):
    v = resolve(I, v)
    if isinstance(spec, str) and spec in ('', 's'):
        return str_(I, v)
    if isinstance(spec, str) and isinstance(v, NATIVE):
        try:
            return format(v, spec)
        except (ValueError, TypeError) as e:
            I.raise_(type(e).__name__, str(e))
    if isinstance(v, Obj) and isinstance(v.payload, NATIVE) and isinstance(spec, str) and v.payload is not None:
        return format(v.payload, spec)
    if v is None:
        I.raise_('TypeError', 'unsupported format string passed to NoneType.__format__')
    if isinstance(spec, str):
        if spec == 'd' and isinstance(v, Sym):
            return str_(I, v)
        n = spec.rstrip('d')
        if n in ('02', '04', '03', '06', '2', '4') or n.isdigit():
            if n.startswith('0'):
                return Sym(('pad', int(n), term(I, v)), TS([I.B['str']]))
        return Sym(('fmt', spec, term(I, v)), TS([I.B['str']]))
    return Sym(('fmt', term(I, spec), term(I, v)), TS([I.B['str']]))


def percent(I, fmt, arg):
    """fmt % arg for constant formats"""
    fmt = resolve(I, fmt)
    if not isinstance(fmt, str):
        return Sym(('percent', term(I, fmt), term(I, arg)), TS([I.B['str']]))
    import re as _re
    pos = list(arg) if isinstance(arg, tuple) else [arg]
    mapping = isinstance(arg, (ADict, AbsMap))
    used = 0
    parts = []
    i = 0
    for m in _re.finditer(r'%(?:\((\w+)\))?([-#0 +]*)(\d*)(?:\.(\d+))?([srdifxXeEgGc%])', fmt):
        parts.append(fmt[i:m.start()])
        i = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            parts.append('%')
            continue
        if name is not None:
            v = getitem(I, arg, name)
        else:
            if used >= len(pos):
                I.raise_('TypeError', 'not enough arguments for format string')
            v = pos[used]
            used += 1
        if conv == 's':
            parts.append(str_(I, v))
        elif conv == 'r':
            parts.append(repr_(I, v))
        elif conv == 'd':
            v = resolve(I, v)
            if isinstance(v, NATIVE) and not isinstance(v, (str, bytes, type(None))):
                parts.append(('%' + flags + width + 'd') % v)
            elif v is None or isinstance(v, str):
                I.raise_('TypeError', '%d format: a real number is required')
            else:
                if isinstance(v, Sym) and I.types(v).inc is not None:
                    k = kind_split(I, v)
                    if k in ('none', 'sized'):
                        I.raise_('TypeError', '%d format: a real number is required')
                parts.append(format_(I, v, flags + width + 'd') if width else str_(I, v))
        else:
            parts.append(Sym(('fmt', m.group(0), term(I, v)), TS([I.B['str']])))
    parts.append(fmt[i:])
    if not mapping and used < len(pos) and isinstance(arg, tuple):
        I.raise_('TypeError', 'not all arguments converted during string formatting')
    return norm_cat(I, parts)


def to_int(I, v):
    v = resolve(I, native_of(v))
    if isinstance(v, (str, bytes, bool, int, float, decimal.Decimal)):
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            I.raise_(type(e).__name__, str(e))
    if v is None:
        I.raise_('TypeError', "int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
    if isinstance(v, Cat):
        v = Sym(v.term, TS([I.B['str']]))
    if isinstance(v, Sym):
        ts = I.types(v)
        if ts.inc is not None and len(ts.inc) > 1 or ts.inc is None:
            if ts.inc is None:
                for c in ('NoneType', 'str', 'int', 'float', 'Decimal', 'bytes'):
                    if isinstance_(I, v, I.B[c]):
                        return to_int(I, v)
                # something else
                if I.atom(('has-int', v.term)):
                    return Sym(('int', v.term), TS([I.B['int']]))
                I.raise_('TypeError', 'int() argument must be a string or a number')
            B = I.B
            split(I, v, [[B['NoneType']], [B['bool'], B['int']], [B['float']], [B['Decimal']], [B['str']], [B['bytes']]])
            return to_int(I, v)
        n = next(iter(ts.inc)).name
        if n in ('int', 'bool'):
            return v if n == 'int' else Sym(('int', v.term), TS([I.B['int']]))
        if n in ('str', 'bytes'):
            t = v.term
            if t[0] in ('str', 'pad'):
                inner = t[-1]
                its = I.facts.types.get(inner)
                if t[0] == 'pad' or (its is not None and all_in(its, ('int',))):
                    return Sym(inner, TS([I.B['int']]))
            d = digits_only(t)
            if d or I.atom(('int-text', t), f'{show(t)} is integer text'):
                return Sym(('int', t), TS([I.B['int']]))
            I.raise_('ValueError', 'invalid literal for int()')
        if n in ('float', 'Decimal'):
            return Sym(('trunc', v.term), TS([I.B['int']]))
        I.raise_('TypeError', 'int() argument must be a string or a number')
    if isinstance(v, Obj):
        f, own = v.cls.lookup('__int__')
        if f is not None and not own.builtin:
            return I.call(Bound(v, f), [], {})
    I.raise_('TypeError', 'int() argument must be a string or a number')


def digits_only(t):
    """Regex groups that can only hold digits."""
    return t[0] == 'group' and t[-1] == 'digits'


def to_float(I, v, kind='float'):
    v = resolve(I, native_of(v))
    if isinstance(v, (str, bytes, bool, int, float, decimal.Decimal)):
        try:
            return float(v) if kind == 'float' else decimal.Decimal(v)
        except (ValueError, OverflowError, decimal.InvalidOperation) as e:
            if kind == 'float':
                I.raise_(type(e).__name__, str(e))
            I.raise_('InvalidOperation', str(e))
    if v is None:
        I.raise_('TypeError', 'float() argument must be a string or a real number')
    if isinstance(v, Cat):
        v = Sym(v.term, TS([I.B['str']]))
    if isinstance(v, Sym):
        ts = I.types(v)
        cls = I.B['float' if kind == 'float' else 'Decimal']
        if ts.inc is None or len(ts.inc) > 1:
            if ts.inc is None:
                for c in ('NoneType', 'str', 'int', 'float', 'Decimal', 'bytes'):
                    if isinstance_(I, v, I.B[c]):
                        return to_float(I, v, kind)
                if I.atom(('has-float', v.term)):
                    return Sym((kind, v.term), TS([cls]))
                I.raise_('TypeError', 'float() argument must be a string or a number')
            B = I.B
            split(I, v, [[B['NoneType']], [B[n] for n in NUMERIC], [B['str']]])
            if not all_in(I.types(v), NUMERIC) and len(I.types(v).inc) > 1:
                split(I, v, [[c] for c in I.types(v).inc])
            ts = I.types(v)
            if all_in(ts, ('NoneType',)):
                I.raise_('TypeError', 'float() argument must be a string or a real number')
        if all_in(I.types(v), NUMERIC):
            # conversion between numeric kinds keeps the number (precision is out of scope)
            return Sym(v.term, TS([cls])) if all_in(I.types(v), (kind,)) else Sym(('num', v.term), TS([cls])) \
                if False else retype(I, v, cls)
        n = next(iter(I.types(v).inc)).name
        if n == 'str':
            if v.term[0] == 'str' and I.facts.types.get(v.term[1]) is not None and all_in(I.facts.types.get(v.term[1]), ('int',)):
                return retype(I, Sym(v.term[1], I.facts.types.get(v.term[1])), cls)
            if I.atom(('float-text', v.term), f'{show(v.term)} is numeric text'):
                return Sym(('num', v.term), TS([cls]))
            if kind == 'float':
                I.raise_('ValueError', 'could not convert string to float')
            I.raise_('InvalidOperation', 'conversion syntax')
        I.raise_('TypeError', 'float() argument must be a string or a real number')
    I.raise_('TypeError', 'float() argument must be a string or a number')


def retype(I, v, cls):
    """The same number as another numeric kind: keep the order facts by equating."""
    ts = I.types(v)
    if ts.inc is not None and ts.inc == frozenset([cls]):
        return v
    n = Sym(('as', cls.name, v.term), TS([cls]))
    z = I.facts.zone
    if z.get(n.term, v.term) is None:
        z.assume(n.term, v.term, 0, {'='})
    return n


# ---------------------------------------------------------------------- operators
OPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
       'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow, 'BitOr': operator.or_,
       'BitAnd': operator.and_, 'BitXor': operator.xor, 'LShift': operator.lshift, 'RShift': operator.rshift}
DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
          'BitOr': 'or', 'BitAnd': 'and', 'BitXor': 'xor', 'Pow': 'pow', 'LShift': 'lshift', 'RShift': 'rshift'}


def binop(I, op, a, b):
    a, b = resolve(I, a), resolve(I, b)
    if isinstance(a, Obj):
        f, own = a.cls.lookup(f'__{DUNDER.get(op, op)}__')
        if f is not None and not own.builtin:
            r = I.call(Bound(a, f), [b], {})
            if r is not NotImplemented:
                return r
    if isinstance(b, Obj):
        f, own = b.cls.lookup(f'__r{DUNDER.get(op, op)}__')
        if f is not None and not own.builtin:
            return I.call(Bound(b, f), [a], {})
    h = I.binop_hooks.get(op)
    if h is not None:
        r = h(I, a, b)
        if r is not None:
            return r
    if op == 'Mod':
        ta = as_text(I, a)
        if ta is not None:
            return percent(I, ta, b)
    if isinstance(a, AView) or isinstance(b, AView):
        if op not in ('BitAnd', 'BitOr', 'Sub', 'BitXor'):
            I.raise_('TypeError', 'unsupported operand for a view of a dict')
        return set_op(I, op, I.new_set(list(iterate(I, a))), I.new_set(list(iterate(I, b))))
    a0, b0 = a, b
    a, b = native_of(a), native_of(b)
    if isinstance(a, NATIVE) and isinstance(b, NATIVE):
        try:
            return OPS[op](a, b)
        except (TypeError, ZeroDivisionError, OverflowError, ValueError) as e:
            I.raise_(type(e).__name__, str(e))
        except decimal.DecimalException as e:
            I.raise_('InvalidOperation', str(e))
    if op == 'BitOr' and isinstance(a, (Cls, tuple, Obj)) and isinstance(b, (Cls, Obj)) and (
            isinstance(a, Cls) or (isinstance(a, Obj) and a.cls.name == 'UnionType')):
        items = (list(a.payload) if isinstance(a, Obj) else [a]) + [b]
        return Obj(I.B['UnionType'], I.new_id(), payload=tuple(items))
    if op == 'Add':
        la, lb = listish(a), listish(b)
        if la is not None and lb is not None:
            return I.new_list(list(la) + list(lb))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if la is not None or lb is not None:
            # list + something else
            if isinstance(a, (Sym, AColl)) or isinstance(b, (Sym, AColl)):
                xs = list(iterate(I, a)) if not la else list(la)
                ys = list(iterate(I, b)) if not lb else list(lb)
                return I.new_list(xs + ys)
            I.raise_('TypeError', 'can only concatenate list to list')
        if isinstance(a, AColl) and isinstance(b, AColl):
            return I.new_list(list(iterate(I, a)) + list(iterate(I, b)))
        ta, tb = as_text(I, a), as_text(I, b)
        if ta is not None and tb is not None:
            return norm_cat(I, [ta, tb])
        for x, y in ((a, b), (b, a)):
            if as_text(I, x) is not None:
                if isinstance(y, Sym):
                    ts = I.types(y)
                    if ts.inc is None or I.B['str'] in ts.inc:
                        if isinstance_(I, y, I.B['str']):
                            return norm_cat(I, [a, b])
                I.raise_('TypeError', 'can only concatenate str')
        ba, bb = as_bytes(I, a), as_bytes(I, b)
        if ba is not None and bb is not None:
            return norm_cat(I, [ba, bb], bytes)
    if op == 'BitOr' and isinstance(a, (ADict, AbsMap)) and isinstance(b, (ADict, AbsMap)):
        d = I.new_dict([])
        for k, v in list(dict_items(I, a)) + list(dict_items(I, b)):
            dict_set(I, d, k, v)
        return d
    if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and (isinstance(a, (ASet, MapKeys)) or isinstance(b, (ASet, MapKeys))):
        return set_op(I, op, a, b)
    if op == 'Mult':
        if isinstance(a, int) and (listish(b) is not None or isinstance(b, tuple)):
            a, b = b, a
        if listish(a) is not None and isinstance(b, int):
            return I.new_list(list(listish(a)) * b)
        if isinstance(a, str) and isinstance(b, Sym) or isinstance(b, str) and isinstance(a, Sym):
            return Sym(('mul', term(I, a), term(I, b)), TS([I.B['str']]))
        if isinstance(a, tuple) and isinstance(b, int):
            return a * b
    # numbers
    ka, kb = num_kind(I, a), num_kind(I, b)
    if 'none' in (ka, kb):
        I.raise_('TypeError', f'unsupported operand type(s) for {op}: NoneType')
    if ka == 'str' and kb == 'str' and op == 'Add':
        return norm_cat(I, [a, b])
    if {ka, kb} & {'str', 'bytes'} and {ka, kb} & {'num'}:
        if op == 'Mult':
            return Sym(('mul', term(I, a), term(I, b)), TS([I.B['str']]))
        I.raise_('TypeError', f'unsupported operand types for {op}')
    if ka == 'num' and kb == 'num':
        return arith(I, op, a, b)
    tt = ('op', op, term(I, a), term(I, b))
    return Sym(tt)


def as_bytes(I, v):
    v = resolve(I, v)
    if isinstance(v, bytes) or (isinstance(v, Cat) and v.kind is bytes):
        return v
    if isinstance(v, Sym) and all_in(I.types(v), ('bytes',)):
        return v
    if isinstance(v, XBytes) and v.kind is bytes:
        return Sym(v.term, TS([I.B['bytes']]))
    return None


def listish(v):
    if isinstance(v, AList):
        return v.items
    if isinstance(v, Obj) and isinstance(v.payload, AList):
        return v.payload.items
    return None


def arith(I, op, a, b):
    la, lb = lin(I, a), lin(I, b)
    if la is None or lb is None:
        return Sym(('op', op, term(I, a), term(I, b)), TS([I.B['float']]))
    ints = la[2] and lb[2]
    ts = None
    if isinstance(a, Sym) and isinstance(b, Sym) and not ints:
        ts = TS((I.types(a).inc or frozenset()) | (I.types(b).inc or frozenset()))
    if op in ('Add', 'Sub'):
        s = 1 if op == 'Add' else -1
        d = dict(la[1])
        for t, k in lb[1].items():
            d[t] = d.get(t, 0) + s * k
        return from_lin(I, la[0] + s * lb[0], d, ints, None if ints else ts)
    if op == 'Mult':
        if not la[1]:
            return from_lin(I, la[0] * lb[0], {t: k * la[0] for t, k in lb[1].items()}, ints)
        if not lb[1]:
            return from_lin(I, la[0] * lb[0], {t: k * lb[0] for t, k in la[1].items()}, ints)
    ta, tb = lin_term(I, la), lin_term(I, lb)
    if op in ('FloorDiv', 'Mod') and ints and not lb[1] and lb[0] > 0:
        return divmod_norm(I, op, ta, lb[0])
    if op in ('FloorDiv', 'Mod', 'Div'):
        if not lb[1] and lb[0] == 0:
            I.raise_('ZeroDivisionError')
    if op in ('FloorDiv', 'Mod') and ints:
        return Sym((op.lower(), ta, tb), TS([I.B['int']]))
    return Sym(('op', op, ta, tb), TS([I.B['int']]) if ints and op not in ('Div', 'Pow') else TS([I.B['float']]))


def lin_term(I, l):
    c, d, isint = l
    v = from_lin(I, c, d, isint)
    return term(I, v)


def divmod_norm(I, op, t, k):
    """t // k and t % k with nested constants normalised: everything over the innermost dividend.

    div(t,k), mod(div(t,a),b): (t % (a*b)) // a  ==  (t // a) % b
    """
    if k == 1:
        return Sym(t, TS([I.B['int']])) if op == 'FloorDiv' else 0
    if t[0] == 'lin' and len(t[2]) >= 1:
        coefs = [kk for _, kk in t[2]] + ([t[1]] if t[1] else [])
        if all(isinstance(kk, int) for kk in coefs):
            g = math.gcd(*[abs(kk) for kk in coefs], k)
            if g > 1:
                inner = from_lin(I, t[1] // g, {x: kk // g for x, kk in t[2]}, True)
                q = binop(I, op, inner, k // g)
                return q if op == 'FloorDiv' else binop(I, 'Mult', q, g)
    lo, hi = term_bounds(I, t)
    if lo is not None and hi is not None and math.floor(lo) // k == math.floor(hi) // k:
        q = math.floor(lo) // k
        return q if op == 'FloorDiv' else arith(I, 'Sub', Sym(t, TS([I.B['int']])), q * k)
    if op == 'FloorDiv':
        if t[0] == 'fdiv':                       # (x // a) // k
            r = ('fdiv', t[1], t[2] * k)
        elif t[0] == 'fmod' and t[2] % k == 0:   # (x % (k*m)) // k -> (x // k) % m
            if t[2] == k:
                return 0
            r = ('fmod', ('fdiv', t[1], k), t[2] // k)
        else:
            r = ('fdiv', t, k)
    else:
        if t[0] == 'fmod' and t[2] % k == 0:
            r = ('fmod', t[1], k)
        else:
            r = ('fmod', t, k)
    s = Sym(r, TS([I.B['int']]))
    z = I.facts.zone
    z.ints.add(r)
    if r[0] == 'fmod':
        z.assume(r, ZERO, 0, {'>', '='})
        z.assume(r, ZERO, r[2] - 1, {'<', '='})
    elif r[0] == 'fdiv':
        lo, hi = term_bounds(I, r[1])
        if lo is not None:
            z.assume(r, ZERO, math.floor(lo) // r[2], {'>', '='})
        if hi is not None:
            z.assume(r, ZERO, math.floor(hi) // r[2], {'<', '='})
    return s


def term_bounds(I, t):
    """Interval of an integer term, from the zone."""
    z = I.facts.zone
    u, low = z.get(t, ZERO), z.get(ZERO, t)
    if t[0] == 'lin' and (u is None or low is None):
        lo = hi = t[1]
        for x, k in t[2]:
            a, b = term_bounds(I, x)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return (lo if low is None else -low[0]), (hi if u is None else u[0])
    u, low = z.get(t, ZERO), z.get(ZERO, t)
    return (None if low is None else -low[0]), (None if u is None else u[0])


def unary(I, op, v):
    v = resolve(I, v)
    if isinstance(v, Obj):
        n = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
        f, own = v.cls.lookup(n)
        if f is not None and not own.builtin:
            return I.call(Bound(v, f), [], {})
        h = I.unary_hooks.get(op)
        if h is not None:
            r = h(I, v)
            if r is not None:
                return r
    v = native_of(v)
    if isinstance(v, NATIVE):
        try:
            return {'USub': operator.neg, 'UAdd': operator.pos, 'Invert': operator.invert}[op](v)
        except TypeError as e:
            I.raise_('TypeError', str(e))
    if op == 'USub':
        h = I.unary_hooks.get(op)
        if h is not None:
            r = h(I, v)
            if r is not None:
                return r
        k = num_kind(I, v)
        if k == 'num':
            return arith(I, 'Mult', v, -1)
        if k in ('none', 'str'):
            I.raise_('TypeError', 'bad operand type for unary -')
    if op == 'UAdd':
        return v
    return Sym(('unary', op, term(I, v)))


def inplace(I, op, a, b):
    if op == 'Add' and isinstance(a, AList):
        items = list(iterate(I, b))
        I.touch_list(a.items)
        a.items.extend(items)
        return a
    if isinstance(a, Obj):
        f, own = a.cls.lookup(f'__i{DUNDER.get(op, op)}__')
        if f is not None and not own.builtin:
            return I.call(Bound(a, f), [b], {})
        if op == 'Add' and isinstance(a.payload, AList):
            items = list(iterate(I, b))
            I.touch_list(a.payload.items)
            a.payload.items.extend(items)
            return a
        if isinstance(a.payload, ASet):
            inplace(I, op, a.payload, b)
            return a
    if isinstance(a, ASet) and not a.frozen:
        r = set_op(I, op, a, b)
        I.touch_dict(a.d)
        a.d.clear()
        a.d.update(r.d)
        return a
    if isinstance(a, ADict) and op == 'BitOr':
        for k, v in dict_items(I, b):
            dict_set(I, a, k, v)
        return a
    return binop(I, op, a, b)


# ---------------------------------------------------------------------- sets and dicts
def set_add(I, s, v):
    if find_key_set(I, s, v) is None:
        I.setd(s.d, keyterm(I, v), v)


def find_key_set(I, s, x):
    kt = keyterm(I, x)
    if kt in s.d:
        return kt
    if isinstance(x, (Sym, Cat)):
        for k in list(s.d):
            if isinstance(s.d[k], (Sym, Cat, str, int)) and truth(I, eq(I, x, s.d[k])):
                return k
    elif not isinstance(x, Obj):
        for k in list(s.d):
            if isinstance(s.d[k], (Sym, Cat)) and truth(I, eq(I, s.d[k], x)):
                return k
    return None


def set_op(I, op, a, b):
    def member(coll, x):
        return contains(I, coll, x)
    if isinstance(a, (MapKeys, AbsMap)) and not isinstance(b, (MapKeys, AbsMap)):
        if op == 'BitAnd':
            return I.new_set([x for x in iterate(I, b) if member(a, x)])
    if op == 'BitAnd':
        return I.new_set([x for x in iterate(I, a) if member(b, x)])
    if op == 'Sub':
        return I.new_set([x for x in iterate(I, a) if not member(b, x)])
    if op == 'BitOr':
        return I.new_set(list(iterate(I, a)) + list(iterate(I, b)))
    if op == 'BitXor':
        return I.new_set([x for x in iterate(I, a) if not member(b, x)] + [x for x in iterate(I, b) if not member(a, x)])
    raise Analysis('set operation')


def dict_items(I, d):
    if isinstance(d, Obj) and d.payload is not None:
        d = d.payload
    if isinstance(d, ADict):
        return [(k, v) for k, v in d.d.values()]
    if isinstance(d, AbsMap):
        out = []
        for k in map_iter(I, d):
            out.append((k, map_value(I, d, k)))
        return out
    if isinstance(d, (AList, tuple, Iter, AColl)):
        return [tuple(unpack(I, x, 2)) for x in iterate(I, d)]
    if isinstance(d, Module):
        return list(d.vars.items())
    if d is None:
        I.raise_('TypeError', 'not a mapping')
    if isinstance(d, Sym):
        if I.types(d).inc is not None and is_none(I, d):
            I.raise_('TypeError', 'not a mapping')
        out = []
        for i, k in enumerate(sym_iter(I, d)):
            out.append((k, Sym(('key', d.term, k.term))))
        return out
    raise Analysis(f'items of {d!r}')


def dict_find(I, d, k):
    return find_key(I, d.d, k)


def dict_set(I, d, k, v):
    if isinstance(d, Obj):
        d = d.payload
    kt = find_key(I, d.d, k)
    if kt is None:
        kt = keyterm(I, k)
        I.setd(d.d, kt, (k, v))
    else:
        I.setd(d.d, kt, (d.d[kt][0], v))


def getitem(I, o, i):
    o = resolve(I, o)
    if isinstance(o, AView):
        I.raise_('TypeError', f"'{o.kind}' object is not subscriptable")
    i = resolve(I, i)
    if isinstance(i, Obj):
        i = native_of(i)
    if isinstance(o, Obj):
        f, own = o.cls.lookup('__getitem__')
        if f is not None and not own.builtin:
            return I.call(Bound(o, f), [i], {})
        if o.payload is not None:
            if isinstance(o.payload, ADict):
                kt = dict_find(I, o.payload, i)
                if kt is None:
                    f, own = o.cls.lookup('__missing__')
                    if f is not None:
                        return I.call(Bound(o, f), [i], {})
                    if '__default_factory__' in o.attrs:
                        v = I.call(o.attrs['__default_factory__'], [], {})
                        dict_set(I, o.payload, i, v)
                        return v
            return getitem(I, o.payload, i)
        I.raise_('TypeError', f"'{o.cls.name}' object is not subscriptable")
    if isinstance(o, (str, bytes)):
        if isinstance(i, Slice):
            s = (resolve(I, i.a), resolve(I, i.b), resolve(I, i.c))
            if all(x is None or isinstance(x, int) for x in s):
                return o[slice(*s)]
            return Sym(('slice', term(I, o), term(I, i)), TS([type_of(I, o)]))
        if isinstance(i, int):
            try:
                return o[i]
            except IndexError:
                I.raise_('IndexError', 'string index out of range')
        return Sym(('item', term(I, o), term(I, i)), TS([I.B['str']]))
    if isinstance(o, (tuple, AList)):
        items = o if isinstance(o, tuple) else o.items
        if isinstance(i, Slice):
            s = (resolve(I, i.a), resolve(I, i.b), resolve(I, i.c))
            if not all(x is None or isinstance(x, int) for x in s):
                raise Cut('symbolic slice')
            r = items[slice(*s)]
            return r if isinstance(o, tuple) else I.new_list(r)
        if isinstance(i, int):
            try:
                return items[i]
            except IndexError:
                I.raise_('IndexError', 'list index out of range')
        if isinstance(i, Sym):
            for j in range(len(items)):
                if truth(I, eq(I, i, j)):
                    return items[j]
            I.raise_('IndexError', 'list index out of range')
        I.raise_('TypeError', 'list indices must be integers')
    if isinstance(o, ADict):
        kt = dict_find(I, o, i)
        if kt is None:
            I.raise_('KeyError', i)
        return o.d[kt][1]
    if isinstance(o, AbsMap):
        if has_key(I, o, i):
            return map_value(I, o, i)
        I.raise_('KeyError', i)
    if isinstance(o, AColl):
        if isinstance(i, int) and not isinstance(i, bool):
            if i < 0:
                # last element: resolve the length within the k-limit
                n = len(list(coll_iter(I, o)))
                i += n
                if i < 0:
                    I.raise_('IndexError', 'list index out of range')
                return coll_elem(I, o, i)
            if i < o.minlen or rel_decide(I, ('len', o.term), ZERO, i, '>', ints=True):
                return coll_elem(I, o, i)
            I.raise_('IndexError', 'list index out of range')
        if isinstance(i, Slice):
            return getitem(I, I.new_list(list(coll_iter(I, o))), i)
    if isinstance(o, XElem):
        if isinstance(i, int):
            try:
                return o.children[i]
            except IndexError:
                I.raise_('IndexError', 'list index out of range')
        if isinstance(i, Slice):
            return getitem(I, I.new_list(o.children), i)
    if isinstance(o, Cat):
        return cat_item(I, o, i)
    if isinstance(o, MatchObj):
        return I.call(I.getattr(o, 'group'), [i], {})
    if isinstance(o, Cls):
        if '__members_list__' in o.attrs:
            for m in o.attrs['__members_list__']:
                if m.attrs['name'] == i:
                    return m
            I.raise_('KeyError', i)
        return o        # generic alias
    if isinstance(o, Sym):
        ts = I.types(o)
        if ts.inc is not None:
            k = kind_split(I, o)
            if k in ('none', 'num'):
                I.raise_('TypeError', 'object is not subscriptable')
            if all_in(I.types(o), ('str', 'bytes')):
                return sym_str_item(I, o, i)
            if all_in(I.types(o), ('list', 'tuple')) and isinstance(i, int):
                if i >= 0:
                    if not rel_decide(I, ('len', o.term), ZERO, i, '>', ints=True):
                        I.raise_('IndexError', 'list index out of range')
                    e = I.hooks.get(('elem', o.term))
                    return e(I, i) if e else Sym(('elem', o.term, i))
                if not rel_decide(I, ('len', o.term), ZERO, -i - 1, '>', ints=True):
                    I.raise_('IndexError', 'list index out of range')
                return Sym(('elem', o.term, i))
        if isinstance(i, Slice):
            return Sym(('slice', o.term, term(I, i)), I.types(o))
        return Sym(('item', o.term, term(I, i)))
    if o is None or isinstance(o, NATIVE):
        I.raise_('TypeError', f"'{type(o).__name__}' object is not subscriptable")
    if isinstance(o, XBytes):
        return Sym(('item', o.term, term(I, i)), TS([type_of(I, o)]))
    if isinstance(o, Extern):
        return Sym(('item', ('extern', o.name), term(I, i)))
    I.raise_('TypeError', 'object is not subscriptable')


def sym_str_item(I, o, i):
    st = TS([I.B['str']])
    if isinstance(i, int):
        need = i if i >= 0 else -i - 1
        if not rel_decide(I, ('len', o.term), ZERO, need, '>', ints=True):
            I.raise_('IndexError', 'string index out of range')
        if i == 0:
            return Sym(('first', o.term), st)
        return Sym(('item', o.term, i), st)
    if isinstance(i, Slice):
        a, b, c = resolve(I, i.a), resolve(I, i.b), resolve(I, i.c)
        if a in (None, 0) and b is None and c is None:
            return o
        if a == 1 and b is None and c is None:
            return Sym(('rest', o.term), st)
        if a in (None, 0) and b == 1 and c is None:
            if rel_decide(I, ('len', o.term), ZERO, 0, '>', ints=True):
                return Sym(('first', o.term), st)
            return ''
        if a in (None, 0) and b == 0 and c is None:
            return ''
        return Sym(('slice', o.term, term(I, i)), st)
    return Sym(('item', o.term, term(I, i)), st)


def cat_item(I, o, i):
    st = TS([I.B['str' if o.kind is str else 'bytes']])
    if isinstance(i, int):
        if i == 0:
            p = o.parts[0]
            if isinstance(p, str):
                return p[0]
            if rel_decide(I, ('len', p.term), ZERO, 0, '>', ints=True):
                return getitem(I, p, 0)
            return getitem(I, norm_cat(I, o.parts[1:], o.kind), 0)
        if i == -1 and isinstance(o.parts[-1], str):
            return o.parts[-1][-1]
        if i > 0 and isinstance(o.parts[0], str) and i < len(o.parts[0]):
            return o.parts[0][i]
    if isinstance(i, Slice):
        a, b, c = resolve(I, i.a), resolve(I, i.b), resolve(I, i.c)
        if a in (None, 0) and b is None and c is None:
            return o
        if isinstance(a, int) and b is None and c is None and isinstance(o.parts[0], (str, bytes)) and 0 < a <= len(
                o.parts[0]):
            return norm_cat(I, (o.parts[0][a:],) + o.parts[1:], o.kind)
        if a in (None, 0) and isinstance(b, int) and c is None and isinstance(o.parts[0], (str, bytes)) and 0 <= b <= len(o.parts[0]):
            return o.parts[0][:b]
        if a in (None, 0) and isinstance(b, int) and b < 0 and isinstance(o.parts[-1], (str, bytes)) and -b <= len(o.parts[-1]):
            return norm_cat(I, o.parts[:-1] + (o.parts[-1][:b],), o.kind)
    return Sym(('item', o.term, term(I, i)), st)


def not_an_index(I, i):
    """The classes a symbolic value can have are known, and none can be an index."""
    inc = I.types(i).inc
    return inc is not None and all(
        c.name in ('str', 'bytes', 'float', 'NoneType', 'list', 'tuple', 'dict') for c in inc)


def setitem(I, o, i, v):
    if isinstance(o, Obj):
        f, own = o.cls.lookup('__setitem__')
        if f is not None and not own.builtin:
            I.call(Bound(o, f), [i, v], {})
            return
        if o.payload is not None:
            setitem(I, o.payload, i, v)
            return
        I.raise_('TypeError', 'object does not support item assignment')
    if isinstance(o, ADict):
        dict_set(I, o, i, v)
        return
    if isinstance(o, AList):
        i = resolve(I, i)
        if isinstance(i, Slice):
            s = slice(*(resolve(I, x) for x in (i.a, i.b, i.c)))
            items = list(iterate(I, v))
            I.touch_list(o.items)
            o.items[s] = items
            return
        if not isinstance(i, int):
            if isinstance(i, Sym) and not_an_index(I, i) or not isinstance(i, Sym):
                I.raise_('TypeError', 'list indices must be integers or slices')
            raise Cut('symbolic index store')
        I.touch_list(o.items)
        try:
            o.items[i] = v
        except IndexError:
            I.raise_('IndexError', 'list assignment index out of range')
        return
    if isinstance(o, AbsMap):
        I.setd(o.known, keyterm(I, i), (i, v))
        return
    if isinstance(o, Sym):
        if I.types(o).inc is not None and is_none(I, o):
            I.raise_('TypeError', "'NoneType' object does not support item assignment")
        I.event('setitem', o.term, [i, v])
        I.setd(I.facts.symattrs, (o.term, ('item', keyterm(I, i))), v)
        return
    if isinstance(o, XElem):
        I.touch_list(o.children)
        o.children[i] = v
        return
    I.raise_('TypeError', 'object does not support item assignment')


def delitem(I, o, i):
    if isinstance(o, Obj):
        f, own = o.cls.lookup('__delitem__')
        if f is not None and not own.builtin:
            I.call(Bound(o, f), [i], {})
            return
        o = o.payload
    if isinstance(o, ADict):
        kt = dict_find(I, o, i)
        if kt is None:
            I.raise_('KeyError', i)
        I.deld(o.d, kt)
        return
    if isinstance(o, AList):
        i = resolve(I, i)
        I.touch_list(o.items)
        if isinstance(i, Slice):
            del o.items[slice(*(resolve(I, x) for x in (i.a, i.b, i.c)))]
            return
        try:
            del o.items[i]
        except IndexError:
            I.raise_('IndexError')
        return
    if isinstance(o, AbsMap):
        kt = keyterm(I, i)
        if kt in o.known:
            I.deld(o.known, kt)
        I.facts.truth[('haskey', o.term, term(I, i))] = False
        return
    raise Analysis('unsupported del item')


# ---------------------------------------------------------------------- attributes
def bind_attr(I, v, o, cls):
    """Descriptor protocol for a class attribute v found on cls for instance o."""
    if isinstance(v, (Func, Native)):
        return Bound(o, v)
    if isinstance(v, StaticM):
        return v.f
    if isinstance(v, ClassM):
        return Bound(cls, v.f)
    if isinstance(v, Prop):
        return I.call(v.fget, [o], {})
    if isinstance(v, Partial) and False:
        return v
    if isinstance(v, Obj):
        f, own = v.cls.lookup('__get__')
        if f is not None:
            return I.call(Bound(v, f), [o, cls], {})
    return v


def getattr_(I, o, name):
    if isinstance(o, Obj):
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            d = I.new_dict([])
            live = LiveAttrs(o.attrs)
            for k, v in o.attrs.items():
                if not k.startswith('__abs'):
                    dict.__setitem__(live, keyterm(I, k), (k, v))
            d.d = live
            return d
        v, own = o.cls.lookup(name)
        if isinstance(v, Prop):
            if v.fget is None:
                I.raise_('AttributeError', f'unreadable attribute {name}')
            return I.call(v.fget, [o], {})
        if isinstance(v, Obj) and v.cls.lookup('__set__')[0] is not None and v.cls.lookup('__get__')[0] is not None:
            return I.call(Bound(v, v.cls.lookup('__get__')[0]), [o, o.cls], {})
        if name in o.attrs:
            return o.attrs[name]
        if isinstance(v, CachedProp):
            r = I.call(v.f, [o], {})
            I.setd(o.attrs, name, r)
            return r
        f, gown = o.cls.lookup('__getattribute__')
        if v is not None or own is not None:
            if own.builtin and isinstance(v, Native):
                return Bound(o, v)
            return bind_attr(I, v, o, o.cls)
        h = I.obj_attr_hooks.get(o.cls.name)
        if h is not None:
            r = h(I, o, name)
            if r is not None:
                return r
        f, gown = o.cls.lookup('__getattr__')
        if f is not None:
            return I.call(Bound(o, f), [name], {})
        if o.payload is not None and not isinstance(o.payload, NATIVE):
            m = method(I, o.payload, name)
            if m is not None:
                return m
        if isinstance(o.payload, (str, int, float)) and hasattr(o.payload, name):
            return getattr_(I, o.payload, name)
        if name == '__doc__':
            return None
        if name == 'with_traceback' and o.cls.issub(I.B['BaseException']):
            return Native('with_traceback', lambda I, a, k: o)
        if name in ('__cause__', '__context__', '__traceback__'):
            return None
        I.raise_('AttributeError', f"'{o.cls.name}' object has no attribute '{name}'")
    if isinstance(o, Module):
        if name in o.vars:
            return o.vars[name]
        full = o.name + '.' + name
        try:
            if full not in I.modules and o.name != I.package and not o.name.startswith(I.package + '.'):
                I.raise_('AttributeError', f"module '{o.name}' has no attribute '{name}'")
            return I.import_module(full)
        except AbsRaise:
            if name == '__dict__':
                return o
            I.raise_('AttributeError', f"module '{o.name}' has no attribute '{name}'")
    if isinstance(o, Cls):
        return cls_attr(I, o, name)
    if isinstance(o, Super):
        return super_attr(I, o, name)
    if isinstance(o, Extern):
        if name == '__name__':
            return o.name.split('.')[-1]
        return I.extern_attr(o, name)
    if isinstance(o, Bound):
        if name == '__self__':
            return o.self_
        if name == '__func__':
            return o.func
        return getattr_(I, o.func, name)
    if isinstance(o, Func):
        if name in o.attrs:
            return o.attrs[name]
        if name == '__name__':
            return o.name
        if name == '__qualname__':
            return o.qualname
        if name == '__doc__':
            return None
        if name == '__module__':
            return o.module.name
        if name == '__wrapped__':
            I.raise_('AttributeError', name)
        if name == '__get__':
            return Native('__get__', lambda I, a, k: Bound(a[0], o) if a[0] is not None else o)
        if name == '__call__':
            return o
        I.raise_('AttributeError', name)
    if isinstance(o, Native):
        if name in o.attrs:
            return o.attrs[name]
        if name == '__name__':
            return o.name
        I.raise_('AttributeError', name)
    if isinstance(o, (Partial,)):
        if name == 'func':
            return o.func
        if name == 'args':
            return tuple(o.args)
        if name == 'keywords':
            return I.new_dict(list(o.kwargs.items()))
        I.raise_('AttributeError', name)
    if isinstance(o, Prop):
        if name in ('setter', 'getter', 'deleter'):
            def mk(I, a, k, name=name):
                p = Prop(o.fget, o.fset, o.fdel)
                setattr(p, {'setter': 'fset', 'getter': 'fget', 'deleter': 'fdel'}[name], a[0])
                return p
            return Native(name, mk)
        if name in ('fget', 'fset', 'fdel'):
            return getattr(o, name)
    if isinstance(o, (StaticM, ClassM)):
        return getattr_(I, o.f, name)
    o = resolve(I, o)
    if isinstance(o, Sym):
        return sym_attr(I, o, name)
    if name == '__class__':
        return type_of(I, o)
    m = method(I, o, name)
    if m is not None or isinstance(o, XElem) and name in ('text', 'tail', 'nsmap', 'tag') or isinstance(o, Slice) and name in (
            'start', 'stop', 'step') or isinstance(o, MatchObj) and name in ('lastgroup', 'lastindex'):
        return m
    I.raise_('AttributeError', f"'{single_type(I, o)}' object has no attribute '{name}'")


def method(I, o, name):
    from . import methods
    return methods.find(I, o, name)


def cls_attr(I, c, name):
    if name == '__name__':
        return c.name.split('.')[-1] if c.builtin else c.name
    if name == '__mro__':
        return tuple(c.mro)
    if name == '__bases__':
        return tuple(c.bases)
    if name == '__base__':
        return c.bases[0] if c.bases else None
    if name == '__class__':
        return c.meta if isinstance(c.meta, Cls) else I.B['type']
    if name == '__dict__':
        return I.new_dict(list(c.attrs.items()))
    if name == '__qualname__':
        return c.qualname
    if name == '__module__':
        return c.module or 'builtins'
    if name == '__members__' and '__members_list__' in c.attrs:
        return I.new_dict([(m.attrs['name'], m) for m in c.attrs['__members_list__']])
    if name == '__doc__' and '__doc__' not in c.attrs:
        return None
    if name == '__subclasses__':
        raise Analysis('__subclasses__')
    if name == 'mro':
        return Native('mro', lambda I, a, k: I.new_list(c.mro))
    if isinstance(c.meta, Cls):
        mv, mown = c.meta.lookup(name)
        if isinstance(mv, Prop):
            return I.call(mv.fget, [c], {})
    v, own = c.lookup(name)
    if own is not None:
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(c, v.f)
        if isinstance(v, Obj):
            f, fo = v.cls.lookup('__get__')
            if f is not None:
                return I.call(Bound(v, f), [None, c], {})
        return v
    if isinstance(c.meta, Cls):
        mv, mown = c.meta.lookup(name)
        if mv is not None:
            return bind_attr(I, mv, c, c.meta)
    if c.builtin:
        h = I.extern_values.get(c.name + '.' + name)
        if h is not None:
            return h
        # method of a built-in type used through the class
        m = builtin_cls_method(I, c, name)
        if m is not None:
            return m
    I.raise_('AttributeError', f"type object '{c.name}' has no attribute '{name}'")


def builtin_cls_method(I, c, name):
    from . import methods
    if c.name in ('str', 'list', 'dict', 'set', 'bytes', 'tuple', 'int', 'float', 'frozenset', 'Decimal'):
        def call(I, a, k):
            o = a[0]
            if isinstance(o, Obj) and o.payload is not None:
                o = o.payload
            m = methods.find(I, resolve(I, o), name)
            if m is None:
                I.raise_('AttributeError', name)
            return I.call(m, a[1:], k)
        import builtins
        t = getattr(builtins, c.name, None)
        if t is None or hasattr(t, name):
            if name == 'fromkeys' and c.name == 'dict':
                def fromkeys(I, a, k):
                    d = I.new_dict([])
                    for x in iterate(I, a[0]):
                        dict_set(I, d, x, a[1] if len(a) > 1 else None)
                    return d
                return Native('fromkeys', fromkeys)
            if name == 'maketrans':
                return Native('maketrans', lambda I, a, k: I.new_dict(
                    [(key, v) for key, v in str.maketrans(*a).items()]) if all(isinstance(x, str) for x in a)
                    else Sym(('maketrans',) + tuple(term(I, x) for x in a)))
            return Native(name, call)
    return None


def super_attr(I, s, name):
    o = s.self_
    if isinstance(o, Cls) and not (isinstance(o.meta, Cls) and s.cls in o.meta.mro and s.cls not in o.mro):
        mro = o.mro
        inst = None
    elif isinstance(o, Cls):
        mro = o.meta.mro
        inst = o
    else:
        mro = type_of(I, o).mro
        inst = o
    if s.cls not in mro:
        # metaclass __new__: super().__new__(metacls, ...)
        if isinstance(o, Cls) and s.cls in o.mro:
            mro = o.mro
        else:
            I.raise_('TypeError', 'super(type, obj): obj must be an instance or subtype of type')
    i = mro.index(s.cls)
    for c in mro[i + 1:]:
        if name in c.attrs:
            v = c.attrs[name]
            if name == '__new__':
                return v.f if isinstance(v, StaticM) else v
            if inst is None:
                if isinstance(v, ClassM):
                    return Bound(o, v.f)
                if isinstance(v, StaticM):
                    return v.f
                return v
            return bind_attr(I, v, inst, mro[0])
    if name == '__init__':
        return Native('object.__init__', lambda I, a, k: None)
    if inst is not None and isinstance(inst, Obj) and inst.payload is not None:
        m = method(I, inst.payload, name)
        if m is not None:
            return m
    # base outside the program
    if any(c.builtin and '.' in c.name for c in mro[i + 1:]):
        return Native(name, lambda I, a, k: I.opaque_call('super.' + name, a, k))
    I.raise_('AttributeError', f"'super' object has no attribute '{name}'")


def sym_attr(I, o, name):
    f = I.facts
    if (o.term, name) in f.symattrs:
        return f.symattrs[(o.term, name)]
    ts = I.types(o)
    if name == '__class__':
        return type_of(I, o)
    if o.term[0] == 'class' and name in ('__name__', '__qualname__'):
        return Sym(('attr', o.term, '__name__'), TS([I.B['str']]))
    if ts.inc is not None:
        if len(ts.inc) > 1:
            # partition by class where the attribute semantics differ
            if I.B['NoneType'] in ts.inc:
                if is_none(I, o):
                    I.raise_('AttributeError', f"'NoneType' object has no attribute '{name}'")
                return sym_attr(I, o, name)
            has = [c for c in ts.inc if class_has_attr(I, c, name)]
            no = [c for c in ts.inc if c not in has]
            if has and no:
                if split(I, o, [no]) == 0:
                    I.raise_('AttributeError', f"no attribute '{name}'")
                return sym_attr(I, o, name)
            if no:
                I.raise_('AttributeError', f"no attribute '{name}'")
            kinds = {c.name if c.name in SIZED or c.name in NUMERIC else 'other' for c in ts.inc}
            if len(kinds) > 1:
                split(I, o, [[c] for c in sorted(ts.inc, key=lambda c: c.name)][:-1])
                return sym_attr(I, o, name)
            c = sorted(ts.inc, key=lambda c: c.name)[0]
        else:
            c = next(iter(ts.inc))
        if c.name == 'NoneType':
            I.raise_('AttributeError', f"'NoneType' object has no attribute '{name}'")
        h = I.sym_attr_hooks.get(c.name)
        if h is not None:
            r = h(I, o, name)
            if r is not None:
                return r
        if c.builtin:
            m = method(I, o, name)
            if m is not None:
                return m
            if not class_has_attr(I, c, name):
                I.raise_('AttributeError', f"'{c.name}' object has no attribute '{name}'")
        else:
            v, own = c.lookup(name)
            if own is not None and not own.builtin and isinstance(v, (Func, Prop, ClassM, StaticM)):
                return bind_attr(I, v, o, c)
    else:
        if (('hasattr', o.term, name) in f.truth) and not f.truth[('hasattr', o.term, name)]:
            I.raise_('AttributeError', f"no attribute '{name}'")
    t = I.attr_types.get(name)
    return Sym(('attr', o.term, name), t if t is not None and ts.inc is not None else None)


def class_has_attr(I, c, name):
    if c.name == 'opaque':
        return True
    if c.lookup(name)[1] is not None:
        return True
    from . import methods
    return methods.class_has(I, c, name)


def hasattr_(I, o, name):
    o = resolve(I, o)
    if isinstance(o, Sym):
        if (o.term, name) in I.facts.symattrs:
            return True
        ts = I.types(o)
        if ts.inc is not None:
            has = [c for c in ts.inc if class_has_attr(I, c, name)]
            no = [c for c in ts.inc if c not in has]
            opq = [c for c in has if c.name == 'opaque']
            if has and no:
                g = split(I, o, [no])
                if g == 0:
                    return False
                has = [c for c in I.types(o).inc]
                opq = [c for c in has if c.name == 'opaque']
            if not has:
                return False
            if opq:
                return I.atom(('hasattr', o.term, name))
            return True
        return I.atom(('hasattr', o.term, name))
    try:
        getattr_(I, o, name)
        return True
    except AbsRaise as e:
        if isinstance(e.exc, Obj) and e.exc.cls.issub(I.B['AttributeError']):
            return False
        raise


def setattr_(I, o, name, v, raw=False):
    if isinstance(o, Obj):
        if not raw:
            f, own = o.cls.lookup('__setattr__')
            if f is not None and not own.builtin:
                I.call(Bound(o, f), [name, v], {})
                return
        d, own = o.cls.lookup(name)
        if isinstance(d, Prop):
            if d.fset is None:
                I.raise_('AttributeError', f"property '{name}' has no setter")
            I.call(d.fset, [o, v], {})
            return
        if isinstance(d, Obj):
            f, fo = d.cls.lookup('__set__')
            if f is not None:
                I.call(Bound(d, f), [o, v], {})
                return
        if name == '__dict__' :
            I.touch_dict(o.attrs)
            o.attrs.clear()
            for k, x in dict_items(I, v):
                o.attrs[k] = x
            return
        if '__members_list__' in o.cls.attrs:
            I.event('set-enum', name, [o, v])
        I.event('setattr', name, [o, v])
        I.setd(o.attrs, name, v)
        return
    if isinstance(o, Cls):
        if isinstance(o.meta, Cls):
            f, own = o.meta.lookup('__setattr__')
            if f is not None and not own.builtin and not raw:
                I.call(Bound(o, f), [name, v], {})
                return
        I.event('setclass', name, [o, v])
        I.setd(o.attrs, name, v)
        return
    if isinstance(o, Func):
        I.setd(o.attrs, name, v)
        return
    if isinstance(o, Module):
        I.event('setmodule', name, [o, v])
        I.setd(o.vars, name, v)
        return
    if isinstance(o, XElem):
        if name in ('text', 'tail', 'tag'):
            from . import models
            models.xml_set(I, o, name, v)
            return
        I.raise_('AttributeError', name)
    o = resolve(I, o)
    if isinstance(o, Sym):
        if I.types(o).inc is not None and is_none(I, o):
            I.raise_('AttributeError', f"'NoneType' object has no attribute '{name}'")
        I.event('setattr', name, [o, v])
        I.setd(I.facts.symattrs, (o.term, name), v)
        return
    if isinstance(o, Extern):
        I.event('setextern', name, [o, v])
        return
    if isinstance(o, Super):
        I.raise_('AttributeError', name)
    I.raise_('AttributeError', f'cannot set {name}')
