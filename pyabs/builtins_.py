"""Built-in classes and functions of the analysed language, as abstract models."""
import builtins as _b
import decimal

from . import ops
from .values import (AbsMap, AbsRaise, AColl, ADict, AList, Analysis, ASet, Bound, CachedProp, Cat, ClassM, Cls, Cut,
                     Extern, Func, Iter, MapKeys, Module, NATIVE, Native, Obj, Partial, Prop, Slice, StaticM, Super,
                     Sym, TS, XBytes, XElem, show)

LIST_METHODS = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'index', 'count', 'copy',
                '__getitem__', '__setitem__', '__delitem__', '__contains__', '__len__', '__iter__', '__iadd__',
                '__add__', '__eq__', '__imul__', '__reversed__', '__ne__')
DICT_METHODS = ('get', 'items', 'keys', 'values', 'pop', 'popitem', 'setdefault', 'update', 'copy', 'clear',
                '__getitem__', '__setitem__', '__delitem__', '__contains__', '__len__', '__iter__', '__eq__', '__ne__')
SET_METHODS = ('add', 'discard', 'remove', 'update', 'union', 'intersection', 'difference', 'issubset', 'issuperset',
               'isdisjoint', 'copy', 'clear', 'pop', '__contains__', '__len__', '__iter__', 'symmetric_difference',
               'difference_update', 'intersection_update')


def install(I):
    B = {}

    def cls(name, *bases):
        c = Cls(name, [B[b] for b in bases] if bases else ([B['object']] if name != 'object' else []), builtin=True)
        B[name] = c
        return c

    cls('object')
    cls('type')
    for n in ('NoneType', 'int', 'float', 'str', 'bytes', 'bytearray', 'list', 'tuple', 'dict', 'set', 'frozenset',
              'function', 'method', 'partial', 'module', 'generator', 'dict_items', 'dict_values', 'Match', 'Pattern', 'UnionType', 'opaque',
              'Decimal', 'date', 'time', 'timedelta', 'tzinfo', 'property', 'staticmethod', 'classmethod', 'slice',
              'Enum', 'auto', 'complex', 'memoryview', 'range'):
        cls(n)
    cls('bool', 'int')
    cls('datetime', 'date')
    cls('timezone', 'tzinfo')
    cls('OrderedDict', 'dict')
    cls('defaultdict', 'dict')
    cls('deque')
    B['StrEnum'] = Cls('StrEnum', [B['str'], B['Enum']], builtin=True)
    B['IntEnum'] = Cls('IntEnum', [B['int'], B['Enum']], builtin=True)
    # exceptions
    for n in sorted(vars(_b), key=lambda n: len(getattr(vars(_b)[n], '__mro__', ()))):
        e = vars(_b)[n]
        if isinstance(e, type) and issubclass(e, BaseException):
            if e.__name__ not in B:
                bases = [b.__name__ for b in e.__bases__]
                cls(e.__name__, *[b if b in B else 'object' for b in bases])
            B[n] = B[e.__name__]
    cls('DecimalException', 'ArithmeticError')
    cls('InvalidOperation', 'DecimalException')
    B['ABC'] = cls('ABC')

    def nat(name, fn):
        return Native(name, fn)

    # ------------------------------------------------------------ object / type / exceptions
    o = B['object'].attrs
    o['__init__'] = nat('object.__init__', lambda I, a, k: None)

    def obj_new(I, a, k):
        return I.raw_new(a[0], a[1:], k)
    o['__new__'] = nat('object.__new__', obj_new)

    def obj_setattr(I, a, k):
        ops.setattr_(I, a[0], a[1], a[2], raw=True)
    o['__setattr__'] = nat('object.__setattr__', obj_setattr)

    def obj_getattribute(I, a, k):
        return ops.getattr_(I, a[0], a[1])
    o['__getattribute__'] = nat('object.__getattribute__', obj_getattribute)

    def obj_delattr(I, a, k):
        x, n = a
        if n not in x.attrs:
            I.raise_('AttributeError', n)
        I.deld(x.attrs, n)
    o['__delattr__'] = nat('object.__delattr__', obj_delattr)
    o['__eq__'] = nat('object.__eq__', lambda I, a, k: True if a[0] is a[1] else NotImplemented)
    o['__ne__'] = nat('object.__ne__', lambda I, a, k: not ops.truth(I, ops.eq(I, a[0], a[1])))
    o['__hash__'] = nat('object.__hash__', lambda I, a, k: Sym(('id', ops.term(I, a[0])), TS([B['int']])))
    o['__str__'] = nat('object.__str__', lambda I, a, k: Sym(('str', ops.term(I, a[0])), TS([B['str']])))
    o['__repr__'] = nat('object.__repr__', lambda I, a, k: Sym(('repr', ops.term(I, a[0])), TS([B['str']])))
    o['__format__'] = nat('object.__format__', lambda I, a, k: ops.format_(I, a[0], a[1]))

    t = B['type'].attrs

    def type_new(I, a, k):
        if len(a) == 2:
            return ops.type_of(I, a[1])
        meta, name, bases, d = a[:4]
        attrs = {kk: v for kk, v in ops.dict_items(I, d)}
        mod = attrs.get('__module__')
        module = I.modules.get(mod) if isinstance(mod, str) else None
        return I.build_class(name, [I.as_class(b) for b in I.to_list(bases)] or [B['object']], attrs, module, meta,
                             None, attrs.get('__qualname__', name), k)
    t['__new__'] = nat('type.__new__', type_new)
    t['__init__'] = nat('type.__init__', lambda I, a, k: None)
    t['__call__'] = nat('type.__call__', lambda I, a, k: I.type_call(a[0], a[1:], k))
    t['__setattr__'] = nat('type.__setattr__', lambda I, a, k: ops.setattr_(I, a[0], a[1], a[2], raw=True))

    e = B['BaseException'].attrs

    def exc_init(I, a, k):
        I.setd(a[0].attrs, 'args', tuple(a[1:]))
    e['__init__'] = nat('BaseException.__init__', exc_init)

    def exc_str(I, a, k):
        args = a[0].attrs.get('args', ())
        if len(args) == 1:
            return ops.str_(I, args[0])
        if not args:
            return ''
        return Sym(('str', ops.term(I, args)), TS([B['str']]))
    e['__str__'] = nat('BaseException.__str__', exc_str)
    e['with_traceback'] = nat('with_traceback', lambda I, a, k: a[0])

    # ------------------------------------------------------------ containers usable as base classes
    def delegate(cname, name):
        def f(I, a, k):
            x = a[0]
            if isinstance(x, Obj) and x.payload is not None:
                x = x.payload
            from . import methods
            m = methods.find(I, ops.resolve(I, x), name)
            if m is None:
                I.raise_('AttributeError', name)
            return I.call(m, a[1:], k)
        return nat(f'{cname}.{name}', f)

    for cname, names in (('list', LIST_METHODS), ('dict', DICT_METHODS), ('set', SET_METHODS),
                         ('frozenset', SET_METHODS)):
        for n in names:
            B[cname].attrs[n] = delegate(cname, n)

    def list_init(I, a, k):
        x = a[0]
        if len(a) > 1:
            items = I.to_list(a[1])
            I.touch_list(x.payload.items)
            x.payload.items[:] = items
    B['list'].attrs['__init__'] = nat('list.__init__', list_init)

    def dict_init(I, a, k):
        x = a[0]
        p = x.payload if isinstance(x, Obj) else x
        if len(a) > 1:
            for kk, v in ops.dict_items(I, a[1]):
                ops.dict_set(I, p, kk, v)
        for kk, v in k.items():
            ops.dict_set(I, p, kk, v)
    B['dict'].attrs['__init__'] = nat('dict.__init__', dict_init)

    def set_init(I, a, k):
        for v in (I.to_list(a[1]) if len(a) > 1 else ()):
            ops.set_add(I, a[0].payload, v)
    B['set'].attrs['__init__'] = nat('set.__init__', set_init)
    for n in ('str', 'int', 'float', 'tuple'):
        B[n].attrs['__new__'] = nat(n + '.__new__', obj_new)

    # ------------------------------------------------------------ constructors
    C = I.ctors = {}
    C['object'] = lambda I, a, k: Obj(B['object'], I.new_id())

    def c_str(I, a, k):
        if not a:
            return k.get('object', '')
        if len(a) > 1 or 'encoding' in k:
            return I.call(I.getattr(a[0], 'decode'), a[1:], {kk: v for kk, v in k.items() if kk in ('encoding', 'errors')})
        return ops.str_(I, a[0])
    C['str'] = c_str
    C['int'] = lambda I, a, k: ops.to_int(I, a[0]) if len(a) == 1 else (
        0 if not a else int_base(I, a))
    C['float'] = lambda I, a, k: ops.to_float(I, a[0]) if a else 0.0
    C['Decimal'] = lambda I, a, k: ops.to_float(I, a[0], 'Decimal') if a else decimal.Decimal(0)

    def int_base(I, a):
        if isinstance(a[0], str) and isinstance(a[1], int):
            try:
                return int(a[0], a[1])
            except ValueError as e:
                I.raise_('ValueError', str(e))
        if a[1] == 10:
            return ops.to_int(I, a[0])
        return Sym(('int', ops.term(I, a[0]), a[1]), TS([B['int']]))

    def c_bool(I, a, k):
        return ops.truth(I, a[0]) if a else False
    C['bool'] = c_bool

    def c_bytes(I, a, k):
        if not a:
            return b''
        x = ops.resolve(I, a[0])
        if isinstance(x, (str, Cat, XBytes)) or (isinstance(x, Sym) and ops.all_in(I.types(x), ('str',))):
            if len(a) < 2 and 'encoding' not in k:
                I.raise_('TypeError', 'string argument without an encoding')
            return I.call(I.getattr(x, 'encode'), a[1:], {})
        if isinstance(x, bytes) or ops.as_bytes(I, x) is not None:
            return x
        return Sym(('bytes', ops.term(I, x)), TS([B['bytes']]))
    C['bytes'] = C['bytearray'] = c_bytes
    C['list'] = lambda I, a, k: I.new_list(I.to_list(a[0]) if a else [])
    C['tuple'] = lambda I, a, k: tuple(I.to_list(a[0])) if a else ()

    def c_dict(I, a, k):
        d = I.new_dict([])
        if a:
            for kk, v in ops.dict_items(I, a[0]):
                ops.dict_set(I, d, kk, v)
        for kk, v in k.items():
            ops.dict_set(I, d, kk, v)
        return d
    C['dict'] = C['OrderedDict'] = c_dict

    def c_set(I, a, k, frozen=False):
        return I.new_set(I.to_list(a[0]) if a else [], frozen)
    C['set'] = c_set
    C['frozenset'] = lambda I, a, k: c_set(I, a, k, True)
    C['property'] = lambda I, a, k: Prop(*[x for x in a[:3]], **{n: v for n, v in k.items() if n != 'doc'})
    C['staticmethod'] = lambda I, a, k: StaticM(a[0])
    C['classmethod'] = lambda I, a, k: ClassM(a[0])
    C['slice'] = lambda I, a, k: Slice(*(([None] + a + [None])[:3] if len(a) == 1 else (a + [None])[:3]))
    C['auto'] = lambda I, a, k: Obj(B['auto'], I.new_id())
    C['NoneType'] = lambda I, a, k: None

    def c_range(I, a, k):
        a = [ops.resolve(I, x) for x in a]
        if all(isinstance(x, int) for x in a):
            if len(range(*a)) > 5000:
                raise Cut('large range')
            return tuple(range(*a))
        if any(x is None or isinstance(x, (str, float)) for x in a):
            I.raise_('TypeError', 'range() needs integers')
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])

        def gen():
            i = lo
            n = 0
            while ops.truth(I, ops.order(I, '<', i, hi)):
                n += 1
                if n > I.loop_limit + 1:
                    raise Cut('range longer than the k-limit')
                yield i
                i = ops.binop(I, 'Add', i, 1)
        return Iter(gen(), I.new_id())
    C['range'] = c_range

    # ------------------------------------------------------------ functions
    def f_isinstance(I, a, k):
        return ops.isinstance_(I, a[0], a[1])

    def f_issubclass(I, a, k):
        c, s = a
        if isinstance(s, tuple):
            return any(f_issubclass(I, [c, x], {}) for x in s)
        if isinstance(c, Sym) or isinstance(s, Sym):
            return I.atom(('issubclass', ops.term(I, c), ops.term(I, s)))
        if not isinstance(c, Cls) and not isinstance(c, Extern):
            I.raise_('TypeError', 'issubclass() arg 1 must be a class')
        return I.as_class(c).issub(I.as_class(s))

    def f_getattr(I, a, k):
        name = ops.resolve(I, ops.native_of(a[1]))
        if not isinstance(name, str):
            return dyn_getattr(I, a[0], name, a[2:])
        name = name
        return I.getattr(a[0], name, a[2] if len(a) > 2 else None, len(a) > 2)

    def dyn_getattr(I, o, name, default):
        if isinstance(o, Obj):
            for n in list(o.attrs):
                if ops.truth(I, ops.eq(I, name, n)):
                    return I.getattr(o, n)
        I.unmodelled.append(('getattr with unknown name', I.where_repo()))
        return Sym(('attr?', ops.term(I, o), ops.term(I, name)))

    def f_hasattr(I, a, k):
        name = ops.resolve(I, ops.native_of(a[1]))
        if not isinstance(name, str):
            return I.atom(('hasattr', ops.term(I, a[0]), ops.term(I, name)))
        return ops.hasattr_(I, a[0], name)

    def f_setattr(I, a, k):
        name = ops.resolve(I, ops.native_of(a[1]))
        if not isinstance(name, str):
            if isinstance(a[0], Obj):
                f, own = a[0].cls.lookup('__setattr__')
                if f is not None and not own.builtin:
                    I.call(Bound(a[0], f), [a[1], a[2]], {})
                    return
            I.unmodelled.append(('setattr with unknown name', I.where_repo()))
            raise Cut('setattr with unknown name')
        I.setattr(a[0], name, a[2])

    def f_delattr(I, a, k):
        I.delattr_(a[0], a[1])

    def f_any(I, a, k):
        for x in I.iterate(a[0]):
            if ops.truth(I, x):
                return True
        return False

    def f_all(I, a, k):
        for x in I.iterate(a[0]):
            if not ops.truth(I, x):
                return False
        return True

    def f_next(I, a, k):
        it = a[0]
        if isinstance(it, Obj):
            f, own = it.cls.lookup('__next__')
            if f is not None:
                try:
                    return I.call(Bound(it, f), [], {})
                except AbsRaise as e:
                    if len(a) > 1 and isinstance(e.exc, Obj) and e.exc.cls.name == 'StopIteration':
                        return a[1]
                    raise
        if isinstance(it, (AList, tuple, ADict, AColl)) or isinstance(it, (str,)):
            I.raise_('TypeError', 'object is not an iterator')
        if not isinstance(it, Iter):
            if isinstance(it, Sym):
                if I.atom(('has-next', it.term, len(I.choices))):
                    return Sym(('next', it.term, len(I.events)))
                if len(a) > 1:
                    return a[1]
                I.raise_('StopIteration')
            I.raise_('TypeError', 'object is not an iterator')
        for x in it.gen:
            return x
        if len(a) > 1:
            return a[1]
        I.raise_('StopIteration')

    def f_iter(I, a, k):
        if isinstance(a[0], Iter):
            return a[0]
        if len(a) == 2:
            def gen():
                n = 0
                while True:
                    v = I.call(a[0], [], {})
                    if ops.truth(I, ops.eq(I, v, a[1])):
                        return
                    n += 1
                    if n > I.MAX_WHILE:
                        raise Cut('iter(callable, sentinel) did not end')
                    yield v
            return Iter(gen(), I.new_id())
        if isinstance(a[0], Obj):
            f, own = a[0].cls.lookup('__iter__')
            if f is not None and not own.builtin:
                return I.call(Bound(a[0], f), [], {})
        return Iter(iter(I.iterate(a[0])), I.new_id())

    def f_sorted(I, a, k):
        return I.new_list(sort_items(I, I.to_list(a[0]), k.get('key'), k.get('reverse', False)))

    def f_reversed(I, a, k):
        return Iter(iter(list(reversed(I.to_list(a[0])))), I.new_id())

    def f_enumerate(I, a, k):
        start = a[1] if len(a) > 1 else k.get('start', 0)

        def gen():
            i = start
            for x in I.iterate(a[0]):
                yield (i, x)
                i += 1
        return Iter(gen(), I.new_id())

    def f_zip(I, a, k):
        def gen():
            its = [iter(I.iterate(x)) for x in a]
            while its:
                row = []
                for it in its:
                    try:
                        row.append(next(it))
                    except StopIteration:
                        return
                yield tuple(row)
        return Iter(gen(), I.new_id())

    def f_map(I, a, k):
        def gen():
            if len(a) == 2:
                for x in I.iterate(a[1]):
                    yield I.call(a[0], [x], {})
            else:
                for row in f_zip(I, a[1:], {}).gen:
                    yield I.call(a[0], list(row), {})
        return Iter(gen(), I.new_id())

    def f_filter(I, a, k):
        def gen():
            for x in I.iterate(a[1]):
                if ops.truth(I, x if a[0] is None else I.call(a[0], [x], {})):
                    yield x
        return Iter(gen(), I.new_id())

    def extreme(op):
        def f(I, a, k):
            items = I.to_list(a[0]) if len(a) == 1 else list(a)
            if not items:
                if 'default' in k:
                    return k['default']
                I.raise_('ValueError', 'arg is an empty sequence')
            key = k.get('key')
            best = items[0]
            bk = I.call(key, [best], {}) if key is not None else best
            for x in items[1:]:
                xk = I.call(key, [x], {}) if key is not None else x
                if ops.truth(I, ops.order(I, op, xk, bk)):
                    best, bk = x, xk
            return best
        return f

    def f_sum(I, a, k):
        acc = a[1] if len(a) > 1 else k.get('start', 0)
        for x in I.iterate(a[0]):
            acc = ops.binop(I, 'Add', acc, x)
        return acc

    def f_abs(I, a, k):
        x = ops.resolve(I, a[0])
        if isinstance(x, (int, float, decimal.Decimal)):
            return abs(x)
        h = I.unary_hooks.get('Abs')
        if h is not None:
            r = h(I, x)
            if r is not None:
                return r
        if x is None or isinstance(x, str):
            I.raise_('TypeError', 'bad operand type for abs()')
        if ops.truth(I, ops.order(I, '<', x, 0)):
            return ops.unary(I, 'USub', x)
        return x

    def f_divmod(I, a, k):
        h = I.binop_hooks.get('DivMod')
        if h is not None:
            r = h(I, a[0], a[1])
            if r is not None:
                return r
        return (ops.binop(I, 'FloorDiv', a[0], a[1]), ops.binop(I, 'Mod', a[0], a[1]))

    def f_round(I, a, k):
        x = ops.resolve(I, a[0])
        if isinstance(x, (int, float, decimal.Decimal)) and all(isinstance(y, (int, type(None))) for y in a[1:]):
            return round(x, *a[1:])
        return Sym(('round', ops.term(I, x)) + tuple(ops.term(I, y) for y in a[1:]),
                   TS([B['int']]) if len(a) == 1 else TS([B['float']]))

    def f_callable(I, a, k):
        x = ops.resolve(I, a[0])
        if isinstance(x, (Func, Bound, Native, Cls, Partial, Extern)):
            return True
        if isinstance(x, Obj):
            return x.cls.lookup('__call__')[0] is not None
        if isinstance(x, Sym):
            ts = I.types(x)
            if ts.inc is not None:
                if all(c.name in ('function', 'method', 'partial', 'type') for c in ts.inc):
                    return True
                if all(c.name in ops.NUMERIC + ops.SIZED + ('NoneType',) for c in ts.inc):
                    return False
                call = [c for c in ts.inc if c.name in ('function', 'method', 'partial', 'type')]
                if call and all(c.name in ops.NUMERIC + ops.SIZED + ('NoneType', 'function', 'method', 'partial',
                                                                     'type') for c in ts.inc):
                    return ops.split(I, x, [call]) == 0
            return I.atom(('callable', x.term))
        return False

    def f_dir(I, a, k):
        x = a[0]
        names = set()
        if isinstance(x, Cls):
            for c in x.mro:
                if not c.builtin:
                    names |= set(c.attrs)
        elif isinstance(x, Obj):
            names |= set(x.attrs)
            for c in x.cls.mro:
                if not c.builtin:
                    names |= set(c.attrs)
        elif isinstance(x, Module):
            names |= set(x.vars)
        else:
            raise Analysis('dir() of ' + repr(x))
        names -= {'__members_list__'}
        return I.new_list(sorted(names))

    def f_vars(I, a, k):
        x = a[0]
        if isinstance(x, Obj):
            return ops.getattr_(I, x, '__dict__')
        if isinstance(x, Cls):
            return I.new_dict(list(x.attrs.items()))
        if isinstance(x, Module):
            return I.new_dict(list(x.vars.items()))
        I.raise_('TypeError', 'vars() argument must have __dict__ attribute')

    def f_hash(I, a, k):
        x = a[0]
        if isinstance(x, Obj):
            f, own = x.cls.lookup('__hash__')
            if f is not None and not own.builtin:
                return I.call(Bound(x, f), [], {})
        if isinstance(x, (AList, ADict)) or (isinstance(x, ASet) and not x.frozen):
            I.raise_('TypeError', 'unhashable type')
        return Sym(('hash', ops.term(I, x)), TS([B['int']]))

    def f_super(I, a, k):
        return Super(a[0], a[1])

    def f_print(I, a, k):
        I.event('print', 'print', a, k)

    def f_format(I, a, k):
        return ops.format_(I, a[0], a[1] if len(a) > 1 else '')

    def f_ord(I, a, k):
        x = ops.resolve(I, a[0])
        if isinstance(x, str) and len(x) == 1:
            return ord(x)
        return Sym(('ord', ops.term(I, x)), TS([B['int']]))

    def f_chr(I, a, k):
        x = ops.resolve(I, a[0])
        if isinstance(x, int):
            return chr(x)
        return Sym(('chr', ops.term(I, x)), TS([B['str']]))

    def f_len(I, a, k):
        return ops.length(I, a[0])

    def f_repr(I, a, k):
        x = a[0]
        if isinstance(x, Obj):
            f, own = x.cls.lookup('__repr__')
            if f is not None and not own.builtin:
                return I.call(Bound(x, f), [], {})
        return ops.repr_(I, x)

    def f_import(I, a, k):
        return I.import_module(a[0])

    def f_id(I, a, k):
        x = ops.resolve(I, a[0])
        ident = getattr(x, 'ident', None)
        if isinstance(ident, int) and not isinstance(x, Cls):
            return 140000000000000 + 16 * ident     # identities of live objects differ
        return Sym(('id', ops.term(I, x)), TS([B['int']]))

    def f_pow(I, a, k):
        return ops.binop(I, 'Pow', a[0], a[1])

    for name, fn in dict(isinstance=f_isinstance, issubclass=f_issubclass, getattr=f_getattr, hasattr=f_hasattr,
                         setattr=f_setattr, delattr=f_delattr, any=f_any, all=f_all, next=f_next, iter=f_iter,
                         sorted=f_sorted, reversed=f_reversed, enumerate=f_enumerate, zip=f_zip, map=f_map,
                         filter=f_filter, min=extreme('<'), max=extreme('>'), sum=f_sum, abs=f_abs, divmod=f_divmod,
                         round=f_round, callable=f_callable, dir=f_dir, vars=f_vars, hash=f_hash, super=f_super,
                         print=f_print, format=f_format, ord=f_ord, chr=f_chr, len=f_len, repr=f_repr, id=f_id,
                         ascii=f_repr, pow=f_pow, __import__=f_import,
                         locals=lambda I, a, k: None,
                         globals=lambda I, a, k: None,
                         ).items():
        B[name] = nat(name, fn)
    B['open'] = Extern('builtins.open')
    B['exec'] = Extern('builtins.exec')
    B['eval'] = Extern('builtins.eval')
    B['input'] = Extern('builtins.input')
    B['compile'] = Extern('builtins.compile')
    B['NotImplemented'] = NotImplemented
    B['Ellipsis'] = Ellipsis
    B['__debug__'] = True
    B['True'], B['False'], B['None'] = True, False, None
    return B


def sort_items(I, items, key=None, reverse=False):
    keyed = [((I.call(key, [x], {}) if key is not None else x), x) for x in items]
    rev = ops.truth(I, reverse)
    if all(isinstance(ops.native_of(kx), NATIVE) for kx, _ in keyed):
        try:
            return [x for _, x in sorted(keyed, key=lambda p: ops.native_of(p[0]), reverse=rev)]
        except TypeError as e:
            I.raise_('TypeError', str(e))
    if all(isinstance(kx, tuple) and all(isinstance(y, NATIVE) for y in kx) for kx, _ in keyed):
        try:
            return [x for _, x in sorted(keyed, key=lambda p: p[0], reverse=rev)]
        except TypeError as e:
            I.raise_('TypeError', str(e))
    # stable insertion sort through the abstract order
    out = []
    for p in keyed:
        i = len(out)
        while i > 0:
            a, b = (p[0], out[i - 1][0])
            less = ops.truth(I, ops.order(I, '<', a, b)) if not rev else ops.truth(I, ops.order(I, '<', b, a))
            if not less:
                break
            i -= 1
        out.insert(i, p)
    return [x for _, x in out]
