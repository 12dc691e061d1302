"""Abstract model of datetime: values are records of component terms; text layouts are concatenations of padded fields."""
from . import ops
from .facts import ZERO
from .values import Bound, Cat, Iter, NATIVE, Native, Obj, Prop, Sym, TS, show

PARTS = {'date': ('year', 'month', 'day'),
         'time': ('hour', 'minute', 'second', 'microsecond', 'tzinfo', 'fold'),
         'datetime': ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo', 'fold')}
BOUNDS = {'year': (1, 9999), 'month': (1, 12), 'day': (1, 31), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59),
          'microsecond': (0, 999999), 'fold': (0, 1)}
WIDTH = {'Y': ('year', 0), 'm': ('month', 2), 'd': ('day', 2), 'H': ('hour', 2), 'M': ('minute', 2),
         'S': ('second', 2), 'f': ('microsecond', 6)}


def S(I):
    return TS([I.B['str']])


def INT(I):
    return TS([I.B['int']])


def bounded(I, term, lo, hi):
    s = Sym(term, INT(I))
    z = I.facts.zone
    z.ints.add(term)
    if z.get(term, ZERO) is None:
        z.assume(term, ZERO, lo, {'>', '='})
        z.assume(term, ZERO, hi, {'<', '='})
    return s


def kind_of(I, x):
    if isinstance(x, Obj):
        for n in ('datetime', 'date', 'time'):
            if any(c.builtin and c.name == n for c in x.cls.mro):
                return n
    if isinstance(x, Sym):
        ts = I.types(x)
        if ts.inc is not None and len(ts.inc) == 1:
            n = next(iter(ts.inc)).name
            if n in PARTS:
                return n
    return None


def part(I, x, name):
    if isinstance(x, Obj):
        return x.attrs[name]
    if name == 'tzinfo':
        return Sym(('attr', x.term, 'tzinfo'), TS([I.B['NoneType'], I.B['tzinfo']]))
    return bounded(I, ('attr', x.term, name), *BOUNDS[name])


def record(I, kind, vals):
    o = Obj(I.B[kind], I.new_id())
    for n in PARTS[kind]:
        o.attrs[n] = vals.get(n, None if n == 'tzinfo' else 0)
    return o


def delta(I, total):
    o = Obj(I.B['timedelta'], I.new_id())
    o.attrs['__total__'] = total
    return o


def in_range(I, v, lo, hi):
    return (ops.truth(I, ops.order(I, '>=', v, lo)) and ops.truth(I, ops.order(I, '<=', v, hi)))


def int_arg(I, v, what):
    v = ops.resolve(I, v)
    if v is None or isinstance(v, (str, float, bytes)) or (isinstance(v, Sym) and I.types(v).inc is not None
                                                          and not any(c.name in ('int', 'bool') for c in I.types(v).inc)):
        I.raise_('TypeError', f"'{what}' must be an integer")
    return v


def same_source(vals):
    src = set()
    for n in ('year', 'month', 'day'):
        t = getattr(vals[n], 'term', None)
        if t is None or t[0] != 'attr' or t[2] != n:
            return False
        src.add(t[1])
    return len(src) == 1


def validate(I, vals, kind):
    if 'year' in PARTS[kind] and not same_source(vals):
        for n in ('year', 'month', 'day'):
            if not in_range(I, vals[n], *BOUNDS[n]):
                if n == 'year' and ops.truth(I, ops.order(I, '>', vals[n], 2 ** 31 - 1)):
                    I.raise_('OverflowError', 'Python int too large to convert to C int')
                I.raise_('ValueError', f'{n} is out of range')
        if not (isinstance(vals['day'], int) and vals['day'] <= 28):
            if all(isinstance(vals[n], int) for n in ('year', 'month', 'day')):
                import datetime
                try:
                    datetime.date(vals['year'], vals['month'], vals['day'])
                except ValueError as e:
                    I.raise_('ValueError', str(e))
            elif not ops.truth(I, ops.order(I, '<=', vals['day'], 28)):
                if not I.atom(('day-exists',) + tuple(ops.term(I, vals[n]) for n in ('year', 'month', 'day'))):
                    I.raise_('ValueError', 'day is out of range for month')
    for n in ('hour', 'minute', 'second', 'microsecond'):
        if n in PARTS[kind]:
            v = vals.get(n, 0)
            t = getattr(v, 'term', None)
            if t is not None and t[0] == 'attr' and t[2] == n:
                continue
            if not in_range(I, v, *BOUNDS[n]):
                I.raise_('ValueError', f'{n} is out of range')


def construct(kind):
    names = [n for n in PARTS[kind] if n != 'fold']
    required = ('year', 'month', 'day') if kind != 'time' else ()

    def f(I, a, k):
        vals = {}
        for n, v in zip(names, a):
            vals[n] = v
        for n, v in k.items():
            if n not in PARTS[kind]:
                I.raise_('TypeError', f'{n!r} is an invalid keyword argument')
            vals[n] = v
        for n in required:
            if n not in vals:
                I.raise_('TypeError', f"function missing required argument '{n}'")
        for n in list(vals):
            if n not in ('tzinfo',):
                vals[n] = int_arg(I, vals[n], n)
        validate(I, vals, kind)
        return record(I, kind, vals)
    return f


def strftime(I, x, fmt):
    fmt = ops.resolve(I, fmt)
    kind = kind_of(I, x)
    if not isinstance(fmt, str):
        return Sym(('strftime', ops.term(I, x), ops.term(I, fmt)), S(I))
    out = []
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%' or i + 1 >= len(fmt):
            out.append(c)
            i += 1
            continue
        d = fmt[i + 1]
        i += 2
        if d == '%':
            out.append('%')
        elif d in WIDTH:
            n, w = WIDTH[d]
            if n in PARTS[kind]:
                v = part(I, x, n)
            else:
                v = 1900 if n == 'year' else (1 if n in ('month', 'day') else 0)
            out.append(field(I, v, w))
        elif d == 'F':
            out += strftime_parts(I, x, '%Y-%m-%d')
        elif d == 'T':
            out += strftime_parts(I, x, '%H:%M:%S')
        elif d == 'z':
            out.append(tz_text(I, x, ''))
        else:
            out.append(Sym(('strftime', ops.term(I, x), d), S(I)))
    return ops.norm_cat(I, out)


def strftime_parts(I, x, fmt):
    r = strftime(I, x, fmt)
    return list(r.parts) if isinstance(r, Cat) else [r]


def field(I, v, w):
    v = ops.resolve(I, v)
    if isinstance(v, int):
        return str(v).zfill(w)
    if w == 0:
        return ops.str_(I, v)
    return Sym(('pad', w, ops.term(I, v)), S(I))


def offset_of(I, x):
    """utcoffset() of a time/datetime: None or timedelta."""
    tz = part(I, x, 'tzinfo')
    if ops.is_none(I, tz):
        return None
    return tz_offset(I, tz, x)


def tz_offset(I, tz, when=None):
    tz = ops.resolve(I, tz)
    if isinstance(tz, Obj):
        f, own = tz.cls.lookup('utcoffset')
        if f is not None and not own.builtin:
            return I.call(Bound(tz, f), [when], {})
        return tz.attrs['__offset__']
    t = ops.term(I, tz)
    # whole minutes, strictly between -24h and +24h
    m = bounded(I, ('utcoffset-minutes', t), -1439, 1439)
    return delta(I, ops.arith(I, 'Mult', m, 60))


def tz_text(I, x, sep):
    off = offset_of(I, x)
    if off is None:
        return ''
    total = off.attrs['__total__']
    if ops.truth(I, ops.order(I, '<', total, 0)):
        sign, total = '-', ops.arith(I, 'Mult', total, -1)
    else:
        sign = '+'
    h = ops.binop(I, 'FloorDiv', total, 3600)
    m = ops.binop(I, 'FloorDiv', ops.binop(I, 'Mod', total, 3600), 60)
    return ops.norm_cat(I, [sign, field(I, h, 2), sep, field(I, m, 2)])


def isoformat(I, x, sep='T', timespec='auto'):
    kind = kind_of(I, x)
    out = []
    if kind in ('date', 'datetime'):
        out += [field(I, part(I, x, 'year'), 4), '-', field(I, part(I, x, 'month'), 2), '-',
                field(I, part(I, x, 'day'), 2)]
    if kind == 'datetime':
        out.append(sep)
    if kind in ('time', 'datetime'):
        out += [field(I, part(I, x, 'hour'), 2)]
        if timespec not in ('hours',):
            out += [':', field(I, part(I, x, 'minute'), 2)]
        if timespec in ('auto', 'seconds', 'milliseconds', 'microseconds'):
            out += [':', field(I, part(I, x, 'second'), 2)]
        if timespec == 'microseconds' or (timespec == 'auto' and ops.truth(
                I, ops.compare(I, 'NotEq', part(I, x, 'microsecond'), 0))):
            out += ['.', field(I, part(I, x, 'microsecond'), 6)]
        elif timespec == 'milliseconds':
            out += ['.', field(I, ops.binop(I, 'FloorDiv', part(I, x, 'microsecond'), 1000), 3)]
        out.append(tz_text(I, x, ':'))
    return ops.norm_cat(I, out)


def nat(name, fn):
    return Native(name, lambda I, a, k: fn(*a, **k))


def dt_attr(I, x, name, cname):
    """Attributes of symbolic date/time values and of tz/delta symbols."""
    if cname in ('timedelta',):
        total = Sym(('total', x.term), INT(I))
        return delta_attr(I, delta(I, total), name) if name != '__total__' else total
    if cname in ('tzinfo', 'timezone'):
        return tz_attr(I, x, name)
    return value_attr(I, x, name)


def tz_attr(I, x, name):
    if name == 'utcoffset':
        return nat(name, lambda dt=None: tz_offset(I, x, dt))
    if name == 'dst':
        return nat(name, lambda dt=None: Sym(('dst', ops.term(I, x)), TS([I.B['NoneType'], I.B['timedelta']])))
    if name == 'tzname':
        return nat(name, lambda dt=None: Sym(('tzname', ops.term(I, x)), S(I)))
    return None


def value_attr(I, x, name):
    kind = kind_of(I, x)
    if kind is None:
        return None
    if name in PARTS[kind]:
        return part(I, x, name)
    if name == 'strftime':
        return nat(name, lambda fmt: strftime(I, x, fmt))
    if name == '__format__':
        return nat(name, lambda fmt: strftime(I, x, fmt))
    if name == 'isoformat':
        return nat(name, lambda *a, **k: isoformat(I, x, *a, **k))
    if name == '__str__':
        return nat(name, lambda: isoformat(I, x, ' ') if kind == 'datetime' else isoformat(I, x))
    if name == 'utcoffset' and kind != 'date':
        return nat(name, lambda: offset_of(I, x))
    if name in ('tzname', 'dst') and kind != 'date':
        return nat(name, lambda: Sym((name, ops.term(I, x)), TS([I.B['NoneType'], I.B['str']])))
    if name == 'replace':
        def replace(*a, **k):
            vals = {n: part(I, x, n) for n in PARTS[kind]}
            ch = dict(zip(PARTS[kind], a))
            ch.update(k)
            for n in ch:
                if n not in PARTS[kind]:
                    I.raise_('TypeError', f'{n!r} is an invalid keyword argument')
            vals.update(ch)
            if set(ch) - {'tzinfo', 'fold'}:
                validate(I, vals, kind)
            return record(I, kind, vals)
        return nat(name, replace)
    if kind == 'datetime':
        if name == 'date':
            return nat(name, lambda: record(I, 'date', {n: part(I, x, n) for n in PARTS['date']}))
        if name in ('time', 'timetz'):
            def t():
                v = {n: part(I, x, n) for n in PARTS['time']}
                if name == 'time':
                    v['tzinfo'] = None
                return record(I, 'time', v)
            return nat(name, t)
        if name in ('astimezone', 'timestamp', 'utctimetuple'):
            def opaque(*a, **k):
                I.unmodelled.append(('datetime.' + name, I.where_repo()))
                return Sym((name, ops.term(I, x)) + tuple(ops.term(I, y) for y in a), TS([I.B['datetime']]))
            return nat(name, opaque)
    if name in ('weekday', 'isoweekday', 'toordinal', 'ctime', 'timetuple'):
        return nat(name, lambda: Sym((name, ops.term(I, x)), INT(I)))
    return None


def delta_attr(I, x, name):
    total = x.attrs['__total__']
    if name == '__total__':
        return total
    if name == 'days':
        return ops.binop(I, 'FloorDiv', total, 86400)
    if name == 'seconds':
        return ops.binop(I, 'Mod', total, 86400)
    if name == 'microseconds':
        return 0
    if name == 'total_seconds':
        return nat(name, lambda: total)
    return None


def install(I):
    B, C, V, E = I.B, I.ctors, I.extern_values, I.extern_models
    for n in ('date', 'time', 'datetime', 'timedelta', 'timezone', 'tzinfo'):
        V['datetime.' + n] = B[n]
    for n in ('date', 'time', 'datetime'):
        C[n] = construct(n)
    V['datetime.MINYEAR'] = 1
    V['datetime.MAXYEAR'] = 9999

    def c_delta(I, a, k):
        names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
        unit = {'days': 86400, 'seconds': 1, 'minutes': 60, 'hours': 3600, 'weeks': 604800}
        vals = dict(zip(names, a))
        vals.update(k)
        total = 0
        for n, v in vals.items():
            if n in unit:
                total = ops.binop(I, 'Add', total, ops.binop(I, 'Mult', v, unit[n]))
            elif ops.resolve(I, v) != 0:
                I.unmodelled.append(('timedelta(' + n + ')', I.where_repo()))
        return delta(I, total)
    C['timedelta'] = c_delta

    def c_timezone(I, a, k):
        off = a[0] if a else k.get('offset')
        if not (isinstance(off, Obj) and off.cls is B['timedelta']):
            if isinstance(off, Sym):
                off = delta(I, I.getattr(off, '__total__'))
            else:
                I.raise_('TypeError', 'timezone() argument 1 must be datetime.timedelta')
        t = off.attrs['__total__']
        if not (ops.truth(I, ops.order(I, '<', t, 86400)) and ops.truth(I, ops.order(I, '>', t, -86400))):
            I.raise_('ValueError', 'offset must be strictly between -24h and 24h')
        o = Obj(B['timezone'], I.new_id())
        o.attrs['__offset__'] = off
        o.attrs['__name__'] = a[1] if len(a) > 1 else k.get('name')
        return o
    C['timezone'] = c_timezone
    utc = Obj(B['timezone'], I.new_id())
    utc.attrs['__offset__'] = delta(I, 0)
    utc.attrs['__name__'] = None
    V['timezone.utc'] = utc
    V['datetime.UTC'] = utc
    I.utc = utc

    def now(n):
        def f(I, a, k):
            kind = 'datetime' if n in ('now', 'utcnow') else 'date'
            s = Sym((n, len(I.events)), TS([B[kind]]))
            I.event('extern', 'datetime.' + n, a, k, s)
            return s
        return Native(n, f)
    V['datetime.now'] = now('now')
    V['datetime.utcnow'] = now('utcnow')
    V['datetime.today'] = V['date.today'] = now('today')

    def strptime(I, a, k):
        I.unmodelled.append(('datetime.strptime', I.where_repo()))
        if not I.atom(('strptime-ok', ops.term(I, a[0]), ops.term(I, a[1]))):
            I.raise_('ValueError', 'time data does not match format')
        return Sym(('strptime', ops.term(I, a[0]), ops.term(I, a[1])), TS([B['datetime']]))
    V['datetime.strptime'] = Native('strptime', strptime)

    def fromiso(kind):
        def f(I, a, k):
            I.unmodelled.append((kind + '.fromisoformat', I.where_repo()))
            if not I.atom(('iso-ok', kind, ops.term(I, a[0]))):
                I.raise_('ValueError', 'Invalid isoformat string')
            return Sym(('fromiso', kind, ops.term(I, a[0])), TS([B[kind]]))
        return Native('fromisoformat', f)
    for kd in ('date', 'time', 'datetime'):
        V[kd + '.fromisoformat'] = fromiso(kd)

    def combine(I, a, k):
        d, t = a[0], a[1]
        vals = {n: part(I, d, n) for n in PARTS['date']}
        vals.update({n: part(I, t, n) for n in PARTS['time']})
        if len(a) > 2:
            vals['tzinfo'] = a[2]
        if 'tzinfo' in k:
            vals['tzinfo'] = k['tzinfo']
        return record(I, 'datetime', vals)
    V['datetime.combine'] = Native('combine', combine)

    for n in ('date', 'time', 'datetime'):
        I.obj_attr_hooks[n] = value_attr
    I.obj_attr_hooks['timedelta'] = delta_attr
    I.obj_attr_hooks['timezone'] = tz_attr
    # classes derived from datetime inherit through their payload-less records
    I.always_true |= {'date', 'time', 'datetime', 'tzinfo', 'timezone'}

    def neg(I, v):
        if isinstance(v, Obj) and v.cls is B['timedelta']:
            return delta(I, ops.arith(I, 'Mult', v.attrs['__total__'], -1))
    I.unary_hooks['USub'] = neg

    def absd(I, v):
        if isinstance(v, Obj) and v.cls is B['timedelta']:
            t = v.attrs['__total__']
            if ops.truth(I, ops.order(I, '<', t, 0)):
                t = ops.arith(I, 'Mult', t, -1)
            return delta(I, t)
    I.unary_hooks['Abs'] = absd

    def eqdt(I, a, b):
        ka, kb = a.cls.name if isinstance(a, Obj) else None, b.cls.name if isinstance(b, Obj) else None
        if ka == 'timedelta' and kb == 'timedelta':
            return ops.truth(I, ops.eq(I, a.attrs['__total__'], b.attrs['__total__']))
        if ka == 'timezone' and kb == 'timezone' and '__offset__' in a.attrs and '__offset__' in b.attrs:
            return eqdt(I, a.attrs['__offset__'], b.attrs['__offset__'])
        ka, kb = kind_of(I, a), kind_of(I, b)
        if ka is None or ka != kb:
            return None
        if ka != 'date':
            oa, ob = offset_of(I, a), offset_of(I, b)
            if (oa is None) != (ob is None):
                return False
            if oa is not None and not ops.truth(I, ops.eq(I, oa, ob)):
                I.unmodelled.append(('comparison of date-times in different zones', I.where_repo()))
                return I.atom(('eq', ops.term(I, a), ops.term(I, b)))
        return all(ops.truth(I, ops.eq(I, part(I, a, n), part(I, b, n))) for n in PARTS[ka] if n not in ('tzinfo', 'fold'))
    I.eq_hook = eqdt

    def isd(v):
        return isinstance(v, Obj) and v.cls is B['timedelta']

    def addsub(op):
        def f(I, a, b):
            if isd(a) and isd(b):
                return delta(I, ops.binop(I, op, a.attrs['__total__'], b.attrs['__total__']))
        return f
    I.binop_hooks['Add'] = addsub('Add')
    I.binop_hooks['Sub'] = addsub('Sub')

    def mult(I, a, b):
        if isd(b) and not isd(a):
            a, b = b, a
        if isd(a) and not isd(b):
            return delta(I, ops.binop(I, 'Mult', a.attrs['__total__'], b))
    I.binop_hooks['Mult'] = mult

    def fdiv(I, a, b):
        if isd(a):
            t = a.attrs['__total__']
            if isd(b):
                return ops.binop(I, 'FloorDiv', t, b.attrs['__total__'])
            return delta(I, ops.binop(I, 'FloorDiv', t, b))
    I.binop_hooks['FloorDiv'] = fdiv

    def mod(I, a, b):
        if isd(a) and isd(b):
            return delta(I, ops.binop(I, 'Mod', a.attrs['__total__'], b.attrs['__total__']))
    I.binop_hooks['Mod'] = mod

    def div(I, a, b):
        if isd(a) and isd(b):
            return Sym(('op', 'Div', ops.term(I, a.attrs['__total__']), ops.term(I, b.attrs['__total__'])), TS([B['float']]))
    I.binop_hooks['Div'] = div
