"""Library functions given as source to the abstract interpreter (they are analysed, not run)."""

SRC = {}

SRC['itertools'] = '''
class count:
    def __init__(self, start=0, step=1):
        self.n, self.step = start, step
    def __iter__(self):
        return self
    def __next__(self):
        n = self.n
        self.n = n + self.step
        return n

class cycle:
    def __init__(self, it):
        self.items, self.n = list(it), 0
    def __iter__(self):
        return self
    def __next__(self):
        if not self.items:
            raise StopIteration
        x = self.items[self.n]
        self.n = (self.n + 1) % len(self.items)
        return x

def accumulate(it, f=None, *, initial=None):
    have = initial is not None
    acc = initial
    if have:
        yield acc
    for x in it:
        acc = (x if not have else acc + x if f is None else f(acc, x))
        have = True
        yield acc

def compress(data, selectors):
    for x, s in zip(data, selectors):
        if s:
            yield x

def tee(it, n=2):
    xs = list(it)
    return tuple(iter(xs) for _ in range(n))

def chain(*its):
    for it in its:
        for x in it:
            yield x

def _from_iterable(its):
    for it in its:
        for x in it:
            yield x

def dropwhile(pred, it):
    dropping = True
    for x in it:
        if dropping and pred(x):
            continue
        dropping = False
        yield x

def takewhile(pred, it):
    for x in it:
        if not pred(x):
            break
        yield x

def filterfalse(pred, it):
    for x in it:
        if not (pred(x) if pred is not None else x):
            yield x

def starmap(f, it):
    for x in it:
        yield f(*x)

def islice(it, *a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop, step = a[0] or 0, a[1], (a[2] if len(a) > 2 else 1) or 1
    i = 0
    for x in it:
        if stop is not None and i >= stop:
            break
        if i >= start and (i - start) % step == 0:
            yield x
        i += 1

def repeat(x, n):
    for _ in range(n):
        yield x

def product(a, b):
    for x in a:
        for y in b:
            yield (x, y)

def zip_longest(a, b, fillvalue=None):
    a = list(a)
    b = list(b)
    for i in range(max(len(a), len(b))):
        yield (a[i] if i < len(a) else fillvalue, b[i] if i < len(b) else fillvalue)

def pairwise(it):
    it = list(it)
    for i in range(len(it) - 1):
        yield (it[i], it[i + 1])

def groupby(it, key=None):
    out = []
    for x in it:
        k = key(x) if key is not None else x
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter(out)
'''

SRC['functools'] = '''
def total_ordering(cls):
    names = vars(cls)
    if '__lt__' in names:
        if '__gt__' not in names:
            def __gt__(self, other):
                r = self.__lt__(other)
                if r is NotImplemented:
                    return r
                return not r and self != other
            cls.__gt__ = __gt__
        if '__le__' not in names:
            def __le__(self, other):
                r = self.__lt__(other)
                if r is NotImplemented:
                    return r
                return r or self == other
            cls.__le__ = __le__
        if '__ge__' not in names:
            def __ge__(self, other):
                r = self.__lt__(other)
                if r is NotImplemented:
                    return r
                return not r
            cls.__ge__ = __ge__
    return cls

def cmp_to_key(mycmp):
    class K:
        def __init__(self, obj):
            self.obj = obj
        def __lt__(self, other):
            return mycmp(self.obj, other.obj) < 0
        def __gt__(self, other):
            return mycmp(self.obj, other.obj) > 0
        def __eq__(self, other):
            return mycmp(self.obj, other.obj) == 0
        def __le__(self, other):
            return mycmp(self.obj, other.obj) <= 0
        def __ge__(self, other):
            return mycmp(self.obj, other.obj) >= 0
    return K

def reduce(f, it, *init):
    it = list(it)
    if init:
        acc = init[0]
    else:
        if not it:
            raise TypeError('reduce() of empty iterable with no initial value')
        acc = it.pop(0)
    for x in it:
        acc = f(acc, x)
    return acc

def wraps(wrapped, *a, **k):
    def deco(f):
        f.__wrapped__ = wrapped
        return f
    return deco

def update_wrapper(f, wrapped, *a, **k):
    f.__wrapped__ = wrapped
    return f

def lru_cache(*a, **k):
    if a and callable(a[0]):
        return _memo(a[0])
    return _memo

def cache(f):
    return _memo(f)

def _memo(f):
    store = {}
    def g(*a, **k):
        key = (a, tuple(k.items()))
        if key not in store:
            store[key] = f(*a, **k)
        return store[key]
    return g

def singledispatch(f):
    reg = []
    def wrapper(x, *a, **k):
        best = None
        for c in type(x).__mro__:
            for cls, g in reg:
                if cls is c:
                    return g(x, *a, **k)
        return f(x, *a, **k)
    def register(cls, g=None):
        if g is not None:
            reg.append((cls, g))
            return g
        def deco(h):
            reg.append((cls, h))
            return h
        return deco
    wrapper.register = register
    return wrapper
'''

SRC['contextlib'] = '''
class _GeneratorContextManager:
    def __init__(self, gen):
        self.gen = gen
    def __enter__(self):
        return next(self.gen)
    def __exit__(self, t, v, tb):
        if t is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(v)
        except StopIteration as e:
            return e is not v
        except BaseException as e:
            if e is v:
                return False
            raise
        raise RuntimeError("generator didn't stop after throw()")

def contextmanager(f):
    def helper(*a, **k):
        return _GeneratorContextManager(f(*a, **k))
    helper.__name__ = f.__name__
    helper.__doc__ = f.__doc__
    return helper

class suppress:
    def __init__(self, *excs):
        self.excs = excs
    def __enter__(self):
        return None
    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self.excs)

class nullcontext:
    def __init__(self, value=None):
        self.value = value
    def __enter__(self):
        return self.value
    def __exit__(self, *a):
        return False

class closing:
    def __init__(self, value=None):
        self.value = value
    def __enter__(self):
        return self.value
    def __exit__(self, *a):
        self.value.close()

class ExitStack:
    def __init__(self):
        self.cbs = []
    def __enter__(self):
        return self
    def callback(self, f, *a, **k):
        self.cbs.append((f, a, k))
        return f
    def enter_context(self, cm):
        r = cm.__enter__()
        self.cbs.append((cm.__exit__, (None, None, None), {}))
        return r
    def __exit__(self, *a):
        for f, x, k in reversed(self.cbs):
            f(*x, **k)
        return False
'''

SRC['collections'] = '''
class deque(list):
    def __init__(self, it=(), maxlen=None):
        for x in it:
            self.append(x)
    def popleft(self):
        if not len(self):
            raise IndexError('pop from an empty deque')
        return self.pop(0)
    def appendleft(self, x):
        self.insert(0, x)
    def extendleft(self, it):
        for x in it:
            self.insert(0, x)
    def rotate(self, n=1):
        for _ in range(n):
            if len(self):
                self.insert(0, self.pop())

class defaultdict(dict):
    def __init__(self, default_factory=None, *a, **k):
        self.default_factory = default_factory
        dict.__init__(self, *a, **k)
    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        self[key] = v = self.default_factory()
        return v

class Counter(dict):
    def __init__(self, it=()):
        for x in it:
            self[x] = self.get(x, 0) + 1
    def __missing__(self, key):
        return 0

def namedtuple(name, fields, **kw):
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    fields = list(fields)
    defaults = list(kw.get('defaults', ()))
    def __init__(self, *a, **k):
        vals = dict(zip(fields, a))
        vals.update(k)
        for i, f in enumerate(fields):
            if f in vals:
                setattr(self, f, vals[f])
            elif i >= len(fields) - len(defaults):
                setattr(self, f, defaults[i - (len(fields) - len(defaults))])
            else:
                raise TypeError('missing argument')
    def __iter__(self):
        return iter([getattr(self, f) for f in fields])
    def __getitem__(self, i):
        return getattr(self, fields[i])
    def __len__(self):
        return len(fields)
    def __eq__(self, other):
        return list(self) == list(other)
    def _replace(self, **k):
        vals = {f: getattr(self, f) for f in fields}
        vals.update(k)
        return type(self)(**vals)
    def _asdict(self):
        return {f: getattr(self, f) for f in fields}
    return type(name, (), {'__init__': __init__, '__iter__': __iter__, '__getitem__': __getitem__,
                           '__len__': __len__, '__eq__': __eq__, '_fields': tuple(fields), '_replace': _replace,
                           '_asdict': _asdict})

class ChainMap:
    def __init__(self, *maps):
        self.maps = list(maps)
    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)
    def get(self, k, d=None):
        for m in self.maps:
            if k in m:
                return m[k]
        return d
    def __contains__(self, k):
        return any(k in m for m in self.maps)
'''

SRC['operator'] = '''
def attrgetter(*names):
    def one(o, name):
        for p in name.split('.'):
            o = getattr(o, p)
        return o
    if len(names) == 1:
        return lambda o: one(o, names[0])
    return lambda o: tuple([one(o, n) for n in names])

def itemgetter(*keys):
    if len(keys) == 1:
        return lambda o: o[keys[0]]
    return lambda o: tuple([o[k] for k in keys])

def methodcaller(name, *a, **k):
    return lambda o: getattr(o, name)(*a, **k)

def lt(a, b): return a < b
def le(a, b): return a <= b
def gt(a, b): return a > b
def ge(a, b): return a >= b
def eq(a, b): return a == b
def ne(a, b): return a != b
def not_(a): return not a
def truth(a): return bool(a)
def is_(a, b): return a is b
def is_not(a, b): return a is not b
def contains(a, b): return b in a
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def floordiv(a, b): return a // b
def mod(a, b): return a % b
def neg(a): return -a
def getitem(a, b): return a[b]
def setitem(a, b, c): a[b] = c
def and_(a, b): return a & b
def or_(a, b): return a | b
def iadd(a, b):
    a += b
    return a
'''

SRC['iso8601'] = r'''
import re
from datetime import datetime, timedelta, timezone

class ParseError(ValueError):
    pass

UTC = timezone.utc

_RX = re.compile(r"""
    (?P<year>[0-9]{4})
    (
        (
            (-(?P<monthdash>[0-9]{1,2}))
            |
            (?P<month>[0-9]{2})
            (?!$)
        )
        (
            (
                (-(?P<daydash>[0-9]{1,2}))
                |
                (?P<day>[0-9]{2})
            )
            (
                (
                    (?P<separator>[ T])
                    (?P<hour>[0-9]{2})
                    (:{0,1}(?P<minute>[0-9]{2})){0,1}
                    (
                        :{0,1}(?P<second>[0-9]{1,2})
                        ([.,](?P<second_fraction>[0-9]+)){0,1}
                    ){0,1}
                    (?P<timezone>
                        Z
                        |
                        (
                            (?P<tz_sign>[-+])
                            (?P<tz_hour>[0-9]{2})
                            :{0,1}
                            (?P<tz_minute>[0-9]{2}){0,1}
                        )
                    ){0,1}
                ){0,1}
            )
        ){0,1}
    ){0,1}
    $
    """, re.VERBOSE)

def FixedOffset(h, m, name):
    return timezone(timedelta(hours=h, minutes=m), name)

def parse_date(datestring, default_timezone=UTC):
    if not isinstance(datestring, str):
        raise ParseError('Expecting a string')
    if not _known_layout(datestring):
        return _unknown_text(datestring, default_timezone)
    m = _RX.match(datestring)
    if not m:
        raise ParseError('Unable to parse date string')
    g = {k: v for k, v in m.groupdict().items() if v is not None}
    try:
        tz = g.get('timezone')
        if tz == 'Z':
            tzinfo = UTC
        elif tz is None:
            tzinfo = default_timezone
        else:
            hours = int(g.get('tz_hour', 0))
            minutes = int(g.get('tz_minute', 0))
            if g.get('tz_sign') == '-':
                hours = -hours
                minutes = -minutes
            tzinfo = timezone(timedelta(hours=hours, minutes=minutes))
        return datetime(
            year=int(g.get('year', 0)),
            month=int(g.get('month', g.get('monthdash', 1))),
            day=int(g.get('day', g.get('daydash', 1))),
            hour=int(g.get('hour', 0)), minute=int(g.get('minute', 0)), second=int(g.get('second', 0)),
            microsecond=_micros(g.get('second_fraction')), tzinfo=tzinfo)
    except (ValueError, TypeError) as e:
        raise ParseError(str(e))
'''
