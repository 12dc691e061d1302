"""C02/C03: acceptance of numeric types against the declared facets."""
import decimal

from soapfish import xsd

KINDS = {'int': int, 'float': float, 'Decimal': decimal.Decimal, 'str': str}


def declare(base, names):
    f = {}
    for n in ('minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive'):
        if n in names:
            f[n] = sym(n.upper(), int) if 'nt' in base else sym(n.upper(), anyof(int, float, decimal.Decimal))
    if 'enumeration' in names:
        f['enumeration'] = [sym('ENUM%d' % i, int, float) for i in range(anyof(1, 2))]
    if 'pattern' in names:
        f['pattern'] = sym('PATTERN', str)
        assume(len(f['pattern']) > 0)
    return f


def build(base, facets, how):
    if how == 'constructor':
        return base(**facets)
    if how == 'subclass':
        return type('Declared', (base,), dict(facets))()
    items = list(facets.items())
    k = len(items) // 2
    return type('Declared', (base,), dict(items[:k]))(**dict(items[k:]))


def in_bounds(f, n):
    if 'minInclusive' in f and n < f['minInclusive']:
        return False
    if 'minExclusive' in f and n <= f['minExclusive']:
        return False
    if 'maxInclusive' in f and n > f['maxInclusive']:
        return False
    if 'maxExclusive' in f and n >= f['maxExclusive']:
        return False
    return True


def satisfied(f, n):
    if not in_bounds(f, n):
        return False
    if 'enumeration' in f and n not in f['enumeration']:
        return False
    if 'pattern' in f and not full_match(f['pattern'], str(n)):
        return False
    return True


def number_of(base, value, kind):
    """The number a value stands for, or None when it stands for none."""
    if kind != 'str':
        return value
    try:
        return int(value) if 'nt' in base or base in ('Long', 'Short', 'Byte') else float(value)
    except ValueError:
        return None


def accepts(base, names, kind, how, via='accept'):
    f = declare(base, names)
    t = build(getattr(xsd, base), f, how)
    value = sym('VALUE', KINDS[kind])
    try:
        got = getattr(t, via)(value)
        ok = True
    except ValueError:
        ok = False
    if via == 'pythonvalue' and value == 'nil':
        stop()
    n = number_of(base, value, kind)
    if ok:
        check(n is not None, 'text that is not a number is accepted', value)
        check(satisfied(f, n), 'a number violating a declared facet is accepted', value)
        check(number_of(base, got, 'str' if is_type(got, str) else 'int') == n, 'accept returns the number given', got, value)
    else:
        check(n is None or not satisfied(f, n), 'a number satisfying every declared facet is refused', value)


def as_text(base, names, how):
    """Bounds and enumerations given as text, as generated code does, are the numbers they denote."""
    texts = {'minInclusive': '-7', 'minExclusive': '-7', 'maxInclusive': '10', 'maxExclusive': '10', 'enumeration': ['9', '10', '-7']}
    f = {n: texts[n] for n in names}
    t = build(getattr(xsd, base), dict(f), how)
    value = sym('VALUE', anyof(int, str) if 'nt' in base else anyof(int, float, str))
    kind = 'str' if is_type(value, str) else 'int'
    numbers = {n: [int(x) for x in v] if n == 'enumeration' else int(v) for n, v in f.items()}
    n = number_of(base, value, kind)
    try:
        t.accept(value)
        ok = True
    except ValueError:
        ok = False
    if ok:
        check(n is not None and satisfied(numbers, n), 'a number violating a facet given as text is accepted', value)
    else:
        check(n is None or not satisfied(numbers, n), 'a number satisfying every facet given as text is refused', value)


def digits(base, names, kind, how):
    """totalDigits and fractionDigits count digits, not sign or point."""
    f = {}
    if 'totalDigits' in names:
        f['totalDigits'] = int_between('TOTAL', 1, None)
    if 'fractionDigits' in names:
        f['fractionDigits'] = int_between('FRACTION', 0, None)
    value = sym('VALUE', KINDS[kind])
    neg = flip('negative')
    frac = kind != 'int' and base != 'Integer' and flip('with a fraction')
    idig, fdig = numeral(value, neg, frac, base == 'Integer')
    t = build(getattr(xsd, base), f, how)
    if kind == 'str':
        number_of(base, value, kind) is not None or stop()
    try:
        t.accept(value)
        ok = True
    except ValueError:
        ok = False
    fits = True
    if 'totalDigits' in f and idig + fdig > f['totalDigits']:
        fits = False
    if 'fractionDigits' in f and fdig > f['fractionDigits']:
        fits = False
    if ok:
        check(fits, 'a number with more digits than declared is accepted', value)
    elif 'fractionDigits' in f and fdig < f['fractionDigits']:
        check(True, 'fewer fraction digits than declared may be refused')
    else:
        check(not fits, 'a number within the declared digits is refused', value)


RANGES = {
    'Integer': (None, None), 'NonNegativeInteger': (0, None), 'NonPositiveInteger': (None, 0),
    'NegativeInteger': (None, -1), 'PositiveInteger': (1, None),
    'Long': (-2 ** 63, 2 ** 63 - 1), 'Int': (-2 ** 31, 2 ** 31 - 1), 'Short': (-2 ** 15, 2 ** 15 - 1), 'Byte': (-128, 127),
    'UnsignedLong': (0, 2 ** 64 - 1), 'UnsignedInt': (0, 2 ** 32 - 1), 'UnsignedShort': (0, 2 ** 16 - 1), 'UnsignedByte': (0, 255),
}


def in_range(base, names, kind, how):
    lo, hi = RANGES[base]
    f = declare('Int', names)
    t = build(getattr(xsd, base), f, how)
    value = sym('VALUE', KINDS[kind])
    try:
        got = t.accept(value)
        ok = True
    except ValueError:
        ok = False
    n = number_of('Int', value, kind)
    inside = n is not None and (lo is None or n >= lo) and (hi is None or n <= hi) and satisfied(f, n)
    if ok:
        check(inside, 'an integer outside the range of the type is accepted', value)
        check(got == n, 'accept returns the integer given', got, value)
    else:
        check(not inside, 'an integer inside the range of the type is refused', value)


def nested(base, names, how):
    """A subclass of a subclass keeps every range on the way."""
    lo, hi = RANGES[base]
    f = declare('Int', names)
    mid = type('Mid', (getattr(xsd, base),), {})
    t = build(mid, f, how)
    value = sym('VALUE', int)
    try:
        t.accept(value)
        ok = True
    except ValueError:
        ok = False
    inside = (lo is None or value >= lo) and (hi is None or value <= hi) and satisfied(f, value)
    check(ok == inside, 'a subclass of a built-in integer type keeps its range', value)
