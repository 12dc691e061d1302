"""C04/C05: lexical forms of simple types, wrong types."""
import decimal
from datetime import date, datetime, time, timedelta, timezone, tzinfo

from soapfish import xsd, xsd_types


def pad(n, w):
    return ('%0' + str(w) + 'd') % n


def fields(*names):
    bounds = {'year': (1, 9999), 'month': (1, 12), 'day': (1, 28), 'hour': (0, 23), 'minute': (0, 59), 'second': (0, 59),
              'microsecond': (0, 999999)}
    return {n: int_between(n.upper(), *bounds[n]) for n in names}


class Seasonal(tzinfo):
    """A zone whose offset depends on the moment."""
    def utcoffset(self, dt):
        if dt is None:
            return None
        return timedelta(minutes=OFFSET[0])


OFFSET = [0]


def zone(kind):
    """-> (tzinfo, minutes east of UTC or None)"""
    if kind is None:
        return None, None
    if kind == 'utc':
        return timezone.utc, 0
    m = int_between('OFFSETMINUTES', -14 * 60, 14 * 60)
    if kind == 'seasonal':
        OFFSET[0] = m
        return Seasonal(), m
    return timezone(timedelta(minutes=m)), m


def zone_text(m):
    if m is None:
        return ''
    sign = '-' if m < 0 else '+'
    m = abs(m)
    return sign + pad(m // 60, 2) + ':' + pad(m % 60, 2)


def date_text(f):
    return pad(f['year'], 4) + '-' + pad(f['month'], 2) + '-' + pad(f['day'], 2)


def time_text(f):
    t = pad(f['hour'], 2) + ':' + pad(f['minute'], 2) + ':' + pad(f['second'], 2)
    if f['microsecond'] != 0:
        t = t + '.' + pad(f['microsecond'], 6)
    return t


def same_zone(a, b, when):
    if a is None or b is None:
        return a is b
    return a.utcoffset(when) == b.utcoffset(when)


def write_date(kind, source):
    f = fields('year', 'month', 'day')
    tz, minutes = zone(kind)
    if source == 'date':
        v = date(f['year'], f['month'], f['day'])
    else:
        v = xsd_types.XSDDate(f['year'], f['month'], f['day'], tzinfo=tz)
    t = xsd.Date()
    a = t.accept(v)
    check(a.year == f['year'] and a.month == f['month'] and a.day == f['day'], 'an accepted date keeps year, month and day', a)
    text = t.xmlvalue(a)
    if kind != 'seasonal':
        check(same_zone(a.tzinfo, tz, None), 'an accepted date keeps its zone', a)
    check(text == date_text(f) + zone_text(minutes), 'a date is written as YYYY-MM-DD with its zone', text)
    check(text.startswith(date_text(f)), 'a date is written as YYYY-MM-DD', text)
    b = t.pythonvalue(text)
    check(b.year == f['year'] and b.month == f['month'] and b.day == f['day'], 'a written date reads back with the same day', text)
    if kind != 'seasonal':
        check(same_zone(b.tzinfo, tz, None), 'a written date reads back with the same zone', text)


def write_datetime(kind):
    f = fields('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')
    tz, minutes = zone(kind)
    v = datetime(f['year'], f['month'], f['day'], f['hour'], f['minute'], f['second'], f['microsecond'], tzinfo=tz)
    t = xsd.DateTime()
    a = t.accept(v)
    check(a is v, 'a datetime is accepted as it is', a)
    text = t.xmlvalue(a)
    check(text == date_text(f) + 'T' + time_text(f) + zone_text(minutes),
          'a date-time is written as YYYY-MM-DDTHH:MM:SS[.ffffff] with its zone', text)
    b = t.pythonvalue(text)
    for n in f:
        check(getattr(b, n) == f[n], 'a written date-time reads back with the same ' + n, text)
    if kind is not None:
        check(b.tzinfo is not None and b.utcoffset() == timedelta(minutes=minutes), 'a written date-time reads back with the same zone', text)
    else:
        check(b.tzinfo is None or b.utcoffset() == timedelta(0), 'a date-time without zone reads back as such or as UTC', text)


def write_time(kind):
    f = fields('hour', 'minute', 'second', 'microsecond')
    tz, minutes = zone(kind)
    v = time(f['hour'], f['minute'], f['second'], f['microsecond'], tzinfo=tz)
    t = xsd.Time()
    a = t.accept(v)
    check(a is v, 'a time is accepted as it is', a)
    text = t.xmlvalue(a)
    check(text.startswith(time_text(f)) if kind == 'seasonal' else text == time_text(f) + zone_text(minutes),
          'a time is written as HH:MM:SS[.ffffff] with its zone', text)
    b = t.pythonvalue(text)
    for n in f:
        check(getattr(b, n) == f[n], 'a written time reads back with the same ' + n, text)
    if kind in ('fixed', 'utc'):
        check(b.tzinfo is not None and b.tzinfo.utcoffset(None) == timedelta(minutes=minutes), 'a written time reads back with the same zone', text)


def accept_text(name):
    """Text assigned to a date-time or time field means what it says."""
    f = fields('year', 'month', 'day', 'hour', 'minute', 'second')
    f['microsecond'] = 0
    tz, minutes = zone(anyof('utc', 'fixed'))
    t = getattr(xsd, name)()
    text = (date_text(f) + 'T' if name == 'DateTime' else '') + time_text(f) + zone_text(minutes)
    for how in (t.accept, t.pythonvalue):
        b = how(text)
        for n in ('hour', 'minute', 'second', 'microsecond') + (('year', 'month', 'day') if name == 'DateTime' else ()):
            check(getattr(b, n) == f[n], 'text is read as the value it denotes: ' + n, text)
        check(b.tzinfo is not None and b.tzinfo.utcoffset(None) == timedelta(minutes=minutes), 'text is read with its zone', text)


def read_date(sign, zonekind):
    f = fields('year', 'month', 'day')
    text = sign + date_text(f)
    minutes = None
    if zonekind == 'Z':
        text += 'Z'
        minutes = 0
    elif zonekind == 'hours':
        h = int_between('HOURS', 0, 14)
        s = anyof('+', '-')
        text += s + pad(h, 2)
        minutes = h * 60 if s == '+' else -60 * h
    elif zonekind == 'full':
        h = int_between('HOURS', 0, 13)
        m = int_between('MINUTES', 0, 59)
        s = anyof('+', '-')
        text += s + pad(h, 2) + ':' + pad(m, 2)
        minutes = h * 60 + m if s == '+' else -60 * h - m
    try:
        d = xsd.Date().pythonvalue(text)
    except ValueError:
        check(sign == '-' or zonekind == 'hours', 'a well-formed date is refused', text)
        return
    check(sign == '', 'a date before year 1 is read as another date', text)
    check(d.year == f['year'] and d.month == f['month'] and d.day == f['day'], 'a date is read as the day it denotes', text)
    if minutes is None:
        check(d.tzinfo is None, 'a date without zone is read without zone', text)
    else:
        check(d.tzinfo is not None and d.tzinfo.utcoffset(None) == timedelta(minutes=minutes), 'a date is read with its zone', text)


def boolean_write():
    t = xsd.Boolean()
    for v, text in ((True, 'true'), (False, 'false')):
        a = t.accept(v)
        check(a is v, 'a boolean is accepted as it is', a)
        w = t.xmlvalue(a)
        check(w == text, 'a boolean is written as true or false', w)
        check(t.pythonvalue(w) is v, 'a written boolean reads back', w)


def boolean_read():
    t = xsd.Boolean()
    text = sym('TEXT', str)
    try:
        got = t.pythonvalue(text)
    except ValueError:
        check(text not in ('true', 'false', '1', '0'), 'a lexical form of xs:boolean is refused', text)
        return
    if text == 'nil':
        stop()
    check(text in ('true', 'false', '1', '0', 'True', 'False') or ws(text, 'collapse') in ('true', 'false', '1', '0'),
          'text that is no boolean is read as one', text)
    if text in ('true', '1'):
        check(got is True, 'true and 1 are read as True', text)
    if text in ('false', '0'):
        check(got is False, 'false and 0 are read as False', text)


def integer(base, lo, hi):
    t = getattr(xsd, base)()
    v = int_between('VALUE', lo, hi)
    a = t.accept(v)
    check(a == v, 'an integer is accepted as it is', a)
    w = t.xmlvalue(a)
    check(is_type(w, str) and w == str(v), 'an integer is written as its decimal numeral', w)
    check(t.pythonvalue(w) == v, 'a written integer reads back', w)
    text = sym('TEXT', str)
    try:
        got = t.pythonvalue(text)
    except ValueError:
        return
    if text == 'nil':
        stop()
    check(got == int(text), 'text is read as the integer it denotes', text)


def max_occurs():
    t = xsd.MaxOccurs()
    for v in ('unbounded', xsd.UNBOUNDED):
        w = t.xmlvalue(t.accept(v))
        check(w == 'unbounded', 'no bound is written as unbounded', w)
        check(t.pythonvalue(w) == xsd.UNBOUNDED, 'unbounded reads back as no bound', w)
    n = int_between('VALUE', 0, None)
    a = t.accept(n)
    check(a == n, 'a bound is accepted as it is', a)
    w = t.xmlvalue(a)
    check(w == str(n), 'a bound is written as its numeral', w)
    check(t.pythonvalue(w) == n, 'a written bound reads back', w)
    text = sym('TEXT', str)
    try:
        got = t.pythonvalue(text)
    except ValueError:
        return
    check(text == 'unbounded' and got == xsd.UNBOUNDED or text != 'unbounded' and got == int(text), 'text is read as the bound it denotes', text)


# ---------------------------------------------------------------- C05
WRITABLE = ('String', 'AnyURI', 'QName', 'NMTOKEN', 'Base64Binary', 'Duration', 'Boolean', 'Date', 'DateTime', 'Time', 'Decimal', 'Double',
            'Float', 'Integer', 'NonNegativeInteger', 'Int', 'UnsignedByte', 'MaxOccurs')


def a_value(kind):
    if kind in ('int', 'float', 'str', 'bytes'):
        return sym('VALUE', {'int': int, 'float': float, 'str': str, 'bytes': bytes}[kind])
    if kind == 'Decimal':
        return sym('VALUE', decimal.Decimal)
    if kind == 'bool':
        return anyof(True, False)
    if kind == 'list':
        return anyof([], [sym('ITEM', str, int)])
    if kind == 'tuple':
        return (sym('ITEM', str, int),)
    if kind == 'dict':
        return anyof({}, {'k': sym('ITEM', str)})
    if kind == 'set':
        return {1, 'a'}
    if kind == 'object':
        return object()
    if kind == 'instance':
        class Thing(xsd.ComplexType):
            a = xsd.Element(xsd.String)
        return Thing(a='x')
    if kind == 'nil':
        return xsd.NIL
    if kind == 'date':
        return date(2000, int_between('MONTH', 1, 12), 3)
    if kind == 'datetime':
        return datetime(2000, int_between('MONTH', 1, 12), 3, int_between('HOUR', 0, 23), 5, 7, tzinfo=anyof(None, timezone.utc))
    if kind == 'time':
        return time(int_between('HOUR', 0, 23), 5, 7, tzinfo=anyof(None, timezone.utc, Seasonal()))
    if kind == 'delta':
        return timedelta(minutes=int_between('MINUTES', 0, 59))
    if kind == 'class':
        return anyof(str, xsd.String)


DOCUMENTED = {
    'String': ('str',), 'AnyURI': ('str',), 'QName': ('str',), 'NMTOKEN': ('str',), 'Base64Binary': ('str',), 'Duration': ('str',),
    'Boolean': ('bool',), 'Date': ('date',), 'DateTime': ('datetime', 'str'), 'Time': ('time', 'str'),
    'Decimal': ('Decimal', 'float', 'int', 'str'), 'Double': ('Decimal', 'float', 'int', 'str'), 'Float': ('Decimal', 'float', 'int', 'str'),
    'Integer': ('int', 'str'), 'NonNegativeInteger': ('int', 'str'), 'Int': ('int', 'str'), 'UnsignedByte': ('int', 'str'),
    'MaxOccurs': ('int', 'str', 'Decimal'),
}
# a bool is an int in Python and 1/0 may stand for booleans: either answer is fine as long as it can be written
EITHER = {'Boolean': ('int', 'float', 'Decimal'), 'Decimal': ('bool',), 'Double': ('bool',), 'Float': ('bool',), 'Integer': ('bool',),
          'NonNegativeInteger': ('bool',), 'Int': ('bool',), 'UnsignedByte': ('bool',), 'MaxOccurs': ('bool', 'float', 'Decimal')}


def wrong_type(name, kind):
    t = getattr(xsd, name)()
    value = a_value(kind)
    try:
        got = t.accept(value)
    except ValueError:
        return check(True, 'refused with ValueError')
    check(kind in DOCUMENTED[name] or kind in EITHER.get(name, ()), 'a value of a type the field does not document is accepted', value)
    check(got is not None, 'an accepted value is not lost', value)
    w = t.xmlvalue(got)
    check(is_type(w, str), 'an accepted value is written as text', got, w)
    if kind == 'bool' and name != 'Boolean':
        check(w != 'True' and w != 'False', 'a value written for a number is a numeral', w)


def none(name):
    t = getattr(xsd, name)()
    check(t.accept(None) is None, 'None is accepted as None')


def none_constrained(name):
    """None passes whatever facets are declared."""
    f = {}
    if name in ('String', 'AnyURI', 'Decimal', 'Integer', 'Int'):
        f['enumeration'] = ['x'] if name in ('String', 'AnyURI') else [7]
        f['pattern'] = 'x+' if name in ('String', 'AnyURI') else '7'
    if name in ('String', 'AnyURI'):
        f.update(minLength=2, whiteSpace='collapse')
    else:
        f.update(minInclusive=3, maxExclusive=9)
    t = getattr(xsd, name)(**f)
    check(t.accept(None) is None, 'None is accepted as None whatever the facets')


def field_wrong_type(name, kind):
    """The same through a field: refused values are not stored."""
    class Holder(xsd.ComplexType):
        field = xsd.Element(getattr(xsd, name), minOccurs=0)
    value = a_value(kind)
    h = Holder()
    try:
        h.field = value
    except ValueError:
        check(h.field is None, 'a refused value is not stored', value)
        return
    check(kind in DOCUMENTED[name] or kind in EITHER.get(name, ()), 'a value of a type the field does not document is stored', value)
    h.xml('holder')
    check(True, 'stored values can be rendered')
