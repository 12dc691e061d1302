"""Abstract values.

Immutable Python constants (None, bool, int, float, str, bytes, Decimal, tuple of values,
Ellipsis, NotImplemented) stand for themselves.  Everything else is one of the classes below.
"""
import decimal

NATIVE = (type(None), bool, int, float, str, bytes, decimal.Decimal, type(Ellipsis), type(NotImplemented))


class Analysis(Exception):
    """The analysis itself cannot continue (unsupported construct, vanished anchor)."""


class Cut(Exception):
    """This trace is abandoned (k-limit reached or contradictory facts); never a verdict."""

    def __init__(self, why, silent=False):
        super().__init__(why)
        self.why = why
        self.silent = silent


class AbsRaise(Exception):
    """An exception of the analysed program."""

    def __init__(self, exc, where=None):
        super().__init__(exc)
        self.exc = exc          # Obj
        self.where = where


class Cls:
    """A class: of the analysed program, a built-in or an external one."""
    _n = 0

    def __init__(self, name, bases=(), attrs=None, builtin=False, module=None, meta=None, node=None):
        self.name = name
        self.bases = list(bases)
        self.attrs = attrs if attrs is not None else {}
        self.builtin = builtin
        self.module = module
        self.meta = meta
        self.node = node
        self.qualname = name
        Cls._n += 1
        self.ident = Cls._n
        self.mro = self._c3()

    def _c3(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        res = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Analysis('inconsistent mro for ' + self.name)
            res.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]

    def issub(self, other):
        return other in self.mro

    def lookup(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def __repr__(self):
        return f'<class {self.name}>'

    def key(self):
        return ('cls', (self.module or '') + '.' + self.qualname if not self.builtin else self.name)


class Obj:
    """An instance on the abstract heap."""
    __slots__ = ('cls', 'attrs', 'payload', 'ident', 'tag')

    def __init__(self, cls, ident, payload=None, tag=None):
        self.cls = cls
        self.attrs = {}
        self.payload = payload
        self.ident = ident
        self.tag = tag

    def __repr__(self):
        if self.cls.name and self.tag:
            return f'<{self.cls.name} {self.tag}>'
        if self.payload is not None:
            return f'<{self.cls.name} {self.payload!r}>'
        return f'<{self.cls.name} #{self.ident}>'


class Func:
    def __init__(self, node, env, module, name, cls=None, defaults=(), kwdefaults=None, is_gen=False, locals_=None,
                 qualname=None):
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.cls = cls              # defining class, for super()
        self.defaults = list(defaults)
        self.kwdefaults = kwdefaults or {}
        self.is_gen = is_gen
        self.locals_ = locals_
        self.attrs = {}
        self.qualname = qualname or name
        self.globals_ = set()
        self.nonlocals = set()

    def __repr__(self):
        return f'<function {self.module.name}:{self.qualname}>'


class Bound:
    __slots__ = ('self_', 'func')

    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func

    def __repr__(self):
        return f'<bound {self.func!r}>'


class Native:
    """A modelled function: fn(interp, args, kwargs) -> value."""
    __slots__ = ('name', 'fn', 'attrs')

    def __init__(self, name, fn, attrs=None):
        self.name = name
        self.fn = fn
        self.attrs = attrs or {}

    def __repr__(self):
        return f'<native {self.name}>'


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Prop:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class CachedProp:
    def __init__(self, f):
        self.f = f
        self.name = None


class Module:
    def __init__(self, name, path=None, tree=None):
        self.name = name
        self.path = path
        self.tree = tree
        self.vars = {}

    def __repr__(self):
        return f'<module {self.name}>'


class Extern:
    """Something outside the analysed program, by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<extern {self.name}>'


class AList:
    __slots__ = ('items', 'ident')

    def __init__(self, items, ident):
        self.items = list(items)
        self.ident = ident

    def __repr__(self):
        return repr(self.items)


class AView(AList):
    """The items or values of a dict: not a list, without positions."""
    __slots__ = ('kind',)


class ADict:
    """Insertion ordered, keys compared by key term; entries: keyterm -> (key, value)."""
    __slots__ = ('d', 'ident')

    def __init__(self, ident):
        self.d = {}
        self.ident = ident

    def __repr__(self):
        return '{' + ', '.join(f'{k!r}: {v!r}' for k, v in self.d.values()) + '}'


class LiveAttrs(dict):
    """The entries of obj.__dict__: what is written there is written to the attributes of the object."""

    def __init__(self, attrs):
        super().__init__()
        self.attrs = attrs

    def __setitem__(self, k, v):
        super().__setitem__(k, v)
        if isinstance(v[0], str):
            self.attrs[v[0]] = v[1]

    def __delitem__(self, k):
        v = self[k]
        super().__delitem__(k)
        self.attrs.pop(v[0], None)

    def pop(self, k, *default):
        if k in self:
            self.attrs.pop(self[k][0], None)
        return super().pop(k, *default)

    def popitem(self):
        k, v = super().popitem()
        self.attrs.pop(v[0], None)
        return k, v

    def clear(self):
        for v in self.values():
            self.attrs.pop(v[0], None)
        super().clear()

    def update(self, other):
        for k, v in other.items():
            self[k] = v


class ASet:
    __slots__ = ('d', 'ident', 'frozen')

    def __init__(self, ident, frozen=False):
        self.d = {}
        self.ident = ident
        self.frozen = frozen

    def __repr__(self):
        return '{' + ', '.join(repr(v) for v in self.d.values()) + '}'


class AbsMap:
    """A mapping supplied from outside: which keys it has is unknown; values are symbolic."""
    __slots__ = ('term', 'ident', 'valfn', 'known', 'removed')

    def __init__(self, term, ident, valfn=None):
        self.term = term
        self.ident = ident
        self.valfn = valfn      # fn(interp, keyterm, key) -> value
        self.known = {}         # keyterm -> (key, value) set by the program

    def __repr__(self):
        return f'<map {show(self.term)}>'


class MapKeys:
    __slots__ = ('map',)

    def __init__(self, m):
        self.map = m


class TS:
    """Set of classes a symbol may be an instance of: finite (inc) or co-finite (exc)."""
    __slots__ = ('inc', 'exc')

    def __init__(self, inc=None, exc=frozenset()):
        self.inc = frozenset(inc) if inc is not None else None
        self.exc = frozenset(exc)

    def __repr__(self):
        if self.inc is not None:
            return '|'.join(sorted(c.name for c in self.inc)) or 'nothing'
        return 'any' + (' but ' + '|'.join(sorted(c.name for c in self.exc)) if self.exc else '')


class Sym:
    """Unknown value identified by its provenance term."""
    __slots__ = ('term', 'ts')

    def __init__(self, term, ts=None):
        self.term = term
        self.ts = ts if ts is not None else TS()

    def __repr__(self):
        return show(self.term)

    def __eq__(self, other):
        return isinstance(other, Sym) and other.term == self.term

    def __hash__(self):
        return hash(self.term)


class Cat:
    """String concatenation in normal form: parts are constants (never adjacent, never empty) and Syms."""
    __slots__ = ('parts', 'kind')

    def __init__(self, parts, kind=str):
        self.parts = tuple(parts)
        self.kind = kind

    @property
    def term(self):
        return ('cat',) + tuple(('c', p) if isinstance(p, (str, bytes)) else p.term for p in self.parts)

    def __eq__(self, other):
        return isinstance(other, Cat) and other.term == self.term

    def __hash__(self):
        return hash(self.term)

    def __repr__(self):
        return show(self.term)


class AColl:
    """An immutable-from-here collection supplied from outside, of unknown length; elements built on demand."""
    __slots__ = ('term', 'elem', 'cache', 'ident', 'minlen', 'maxlen')

    def __init__(self, term, ident, elem, minlen=0, maxlen=None):
        self.term = term
        self.ident = ident
        self.elem = elem        # fn(interp, i) -> value
        self.cache = {}
        self.minlen = minlen
        self.maxlen = maxlen

    def __repr__(self):
        return f'<coll {show(self.term)}>'


class Iter:
    """An iterator (host generator inside)."""
    __slots__ = ('gen', 'ident', 'buf', 'body')

    def __init__(self, gen, ident):
        self.gen = gen
        self.body = None        # of a generator function
        self.ident = ident
        self.buf = []


class Super:
    __slots__ = ('cls', 'self_')

    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class Slice:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Partial:
    __slots__ = ('func', 'args', 'kwargs')

    def __init__(self, func, args, kwargs):
        self.func = func
        self.args = args
        self.kwargs = kwargs


class XElem:
    """Abstract XML element.  kind: 'element', 'comment', 'pi'."""
    __slots__ = ('tag', 'attrib', 'children', 'text', 'tail', 'ident', 'kind', 'nsmap', 'prefix', 'tagname', 'parent')

    def __init__(self, tag, ident, attrib, kind='element'):
        self.tag = tag
        self.attrib = attrib        # ADict or AbsMap
        self.children = []
        self.text = None
        self.tail = None
        self.ident = ident
        self.kind = kind
        self.nsmap = None
        self.prefix = None
        self.tagname = None
        self.parent = None

    def __repr__(self):
        return f'<xml {self.tag!r}>'


class XBytes:
    """Serialised XML: the snapshot of a tree."""
    __slots__ = ('tree', 'kind', 'opts')

    def __init__(self, tree, kind=bytes, opts=()):
        self.tree = tree
        self.kind = kind
        self.opts = opts

    @property
    def term(self):
        return ('xml', self.tree, self.kind.__name__)

    def __repr__(self):
        return f'<xml text {show(self.tree)}>'


class MatchObj:
    """Result of a successful abstract regex match."""
    __slots__ = ('pattern', 'kind', 'string', 'real')

    def __init__(self, pattern, kind, string, real=None):
        self.pattern, self.kind, self.string, self.real = pattern, kind, string, real


class Regex:
    __slots__ = ('pattern', 'flags')

    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags


def show(t):
    """Readable form of a term."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    h = t[0]
    if h == 'v':
        return str(t[1])
    if h == 'c':
        return repr(t[1])
    if h == 'attr':
        return f'{show(t[1])}.{t[2]}'
    if h == 'elem':
        return f'{show(t[1])}[{t[2]}]'
    if h == 'cat':
        return '+'.join(show(p) for p in t[1:])
    if h == 'lin':
        return ' + '.join(([str(t[1])] if t[1] else []) + [(f'{c}*' if c != 1 else '') + show(x) for x, c in t[2]])
    if h in ('cls', 'obj', 'ext'):
        return str(t[-1]) if h != 'obj' else f'obj{t[1]}'
    return f'{h}(' + ', '.join(show(p) for p in t[1:]) + ')'
