"""C01: acceptance of String types against the declared facets."""
from soapfish import xsd


def declare(names, wskind):
    facets = {}
    if wskind is not None:
        facets['whiteSpace'] = wskind
    if 'pattern' in names:
        facets['pattern'] = sym('PATTERN', str)
        assume(len(facets['pattern']) > 0)
    if 'enumeration' in names:
        facets['enumeration'] = [sym('ENUM%d' % i, str) for i in range(anyof(1, 2))]
    for n in ('length', 'minLength', 'maxLength'):
        if n in names:
            facets[n] = int_between(n.upper(), 0, None)
    return facets


def build(base, facets, how):
    if how == 'constructor':
        return base(**facets)
    if how == 'subclass':
        return type('Declared', (base,), dict(facets))()
    # half on the class, half given to the constructor
    items = list(facets.items())
    k = len(items) // 2
    return type('Declared', (base,), dict(items[:k]))(**dict(items[k:]))


def satisfied(facets, v):
    if 'pattern' in facets and not full_match(facets['pattern'], v):
        return False
    if 'enumeration' in facets and v not in facets['enumeration']:
        return False
    if 'length' in facets and len(v) != facets['length']:
        return False
    if 'minLength' in facets and len(v) < facets['minLength']:
        return False
    if 'maxLength' in facets and len(v) > facets['maxLength']:
        return False
    return True


def accepts(names, wskind, how, base='String'):
    facets = declare(names, wskind)
    t = build(getattr(xsd, base), facets, how)
    value = sym('VALUE', str)
    try:
        got = t.accept(value)
        ok = True
    except ValueError:
        ok = False
    wanted = ws(value, wskind)
    if ok:
        check(identical(got, wanted), 'accept returns the value after the declared white space handling', got, wanted)
        check(satisfied(facets, wanted), 'a value violating a declared facet is accepted', value)
    else:
        check(not satisfied(facets, wanted), 'a value satisfying every declared facet is refused', value)


def stored(names, wskind, how):
    """The normalised value is what an object of a complex type holds, however it is set."""
    facets = declare(names, wskind)
    t = build(xsd.String, facets, how)

    class Holder(xsd.ComplexType):
        field = xsd.Element(t)
        other = xsd.Attribute(t, use=xsd.Use.OPTIONAL)
    value = sym('VALUE', str)
    which = anyof('field', 'other')
    h = Holder()
    try:
        setattr(h, which, value)
        ok = True
    except ValueError:
        ok = False
    wanted = ws(value, wskind)
    check(ok == satisfied(facets, wanted), 'assignment to a field applies the facets', value)
    if ok:
        check(identical(getattr(h, which), wanted), 'the stored value is the normalised one', getattr(h, which), wanted)
    else:
        check(getattr(h, which) is None, 'a refused value leaves the field alone')
