"""C24, C25: the WSDL and XSD documents generated for Python services and schemas."""
import decimal

from lxml import etree

from soapfish import py2wsdl, py2xsd, soap, soap11, soap12, xsd
from soapfish.soap import Service
from soapfish.soap_dispatch import SOAPDispatcher

XSD = 'http://www.w3.org/2001/XMLSchema'
WSDL = 'http://schemas.xmlsoap.org/wsdl/'
HTTP = 'http://schemas.xmlsoap.org/soap/http'
SOAPNS = {'soap11': 'http://schemas.xmlsoap.org/wsdl/soap/', 'soap12': 'http://schemas.xmlsoap.org/wsdl/soap12/'}
VERSIONS = {'soap11': soap11, 'soap12': soap12}
TNS = 'urn:probe:schema'
Meta = type(xsd.ComplexType)

# every simple type of the library and its name in XML Schema
BUILTIN = {
    'String': 'string', 'Boolean': 'boolean', 'Date': 'date', 'DateTime': 'dateTime', 'Time': 'time', 'Decimal': 'decimal',
    'Double': 'double', 'Float': 'float', 'Integer': 'integer', 'NonNegativeInteger': 'nonNegativeInteger',
    'NonPositiveInteger': 'nonPositiveInteger', 'NegativeInteger': 'negativeInteger', 'PositiveInteger': 'positiveInteger', 'Long': 'long',
    'Int': 'int', 'Short': 'short', 'Byte': 'byte', 'UnsignedLong': 'unsignedLong', 'UnsignedInt': 'unsignedInt',
    'UnsignedShort': 'unsignedShort', 'UnsignedByte': 'unsignedByte', 'AnyURI': 'anyURI', 'QName': 'QName', 'NMTOKEN': 'NMTOKEN',
    'NMTOKENS': 'NMTOKENS', 'Base64Binary': 'base64Binary', 'Duration': 'duration',
}
SINGLE = ('length', 'minLength', 'maxLength', 'whiteSpace', 'minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive',
          'fractionDigits', 'totalDigits')


def x(n):
    return '{%s}%s' % (XSD, n)


def resolve(e, qname):
    """The namespace and name a qualified name means at an element."""
    if qname is None:
        return None
    qname = str(qname)
    if ':' not in qname:
        return (e.nsmap.get(None), qname)
    prefix, n = qname.split(':', 1)
    return (e.nsmap.get(prefix, 'no such prefix'), n)


def kids(e, *tags):
    return [k for k in e if k.tag in [x(t) for t in tags]]


def only(e, t, what):
    found = kids(e, t)
    check(len(found) == 1, what, (t, len(found)))
    if len(found) != 1:
        stop()
    return found[0]


def named(root, t, n):
    found = [k for k in kids(root, t) if k.get('name') == n]
    check(len(found) == 1, 'every component is declared once under its name', (t, n, [k.get('name') for k in kids(root, t)]))
    if len(found) != 1:
        stop()
    return found[0]


def make(base, n, members):
    return Meta(n, (base,), members) if issubclass(base, xsd.ComplexType) else type(n, (base,), members)


# ---------------------------------------------------------------- simple types
def text_is(got, value):
    return got is not None and (identical(got, value) if isinstance(value, str) else identical(got, str(value)))


def restriction_is(restriction, base, declared, what):
    """A restriction element has exactly the facets of declared (an object or class with facet attributes)."""
    check(resolve(restriction, restriction.get('base')) == base, 'a restriction names its base', (what, restriction.get('base'), base))
    values = getattr(declared, 'enumeration', None)
    got = kids(restriction, 'enumeration')
    check(len(got) == len(values or ()), 'every enumeration value is emitted', (what, len(got)))
    for e, v in zip(got, values or ()):
        check(text_is(e.get('value'), v), 'every enumeration value is emitted', (what, e.get('value'), v))
    pattern = getattr(declared, 'pattern', None)
    got = kids(restriction, 'pattern')
    check(len(got) == (1 if pattern else 0), 'the pattern is emitted', (what, len(got)))
    if pattern and got:
        check(text_is(got[0].get('value'), pattern), 'the pattern is emitted', (what, got[0].get('value')))
    for facet in SINGLE:
        value = getattr(declared, facet, None)
        got = kids(restriction, facet)
        check(len(got) == (0 if value is None else 1), 'every declared facet is emitted, and no other', (what, facet, len(got)))
        if value is not None and len(got) == 1:
            check(text_is(got[0].get('value'), value), 'a facet has its value', (what, facet, got[0].get('value')))
    for e in restriction:
        check(e.tag in [x(f) for f in SINGLE + ('enumeration', 'pattern')], 'a restriction has facets only', (what, e.tag))


def facet_value(base, facet, form):
    if facet in ('length', 'minLength', 'maxLength', 'fractionDigits', 'totalDigits'):
        return 0 if form == 'zero' else int_between(facet, 0, None)
    if facet == 'whiteSpace':
        return anyof('preserve', 'replace', 'collapse')
    if facet == 'pattern':
        return nonempty('pattern')
    if facet == 'enumeration':
        if issubclass(base, xsd.String):
            return [sym('one', str), sym('two', str), sym('three', str)]
        return [sym('one', int), 0, sym('three', int)] if issubclass(base, xsd.Integer) else [sym('one', decimal.Decimal), 0, sym('three', float)]
    if form == 'zero':
        return 0
    if issubclass(base, xsd.Integer):
        return int_between(facet, None, None)
    return sym(facet, decimal.Decimal if form == 'decimal' else int)


def facets(base_name, names, where, form):
    """A type with facets, used in every position it can have."""
    bounded()
    base = getattr(xsd, base_name)
    values = {f: facet_value(base, f, form) for f in names}
    xs = (XSD, BUILTIN[base_name])
    if where == 'class':
        Code = make(base, 'Code', dict(values))
        schema = xsd.Schema(TNS, simpleTypes=(Code,))
        root = py2xsd.generate_xsd(schema)
        st = named(root, 'simpleType', 'code')
        check(len(root) == 1, 'nothing else is declared', len(root))
        restriction_is(only(st, 'restriction', 'a simple type is a restriction'), xs, Code, where)
        return
    t = base(**values)
    declared = t
    if where == 'own class in place':
        Code = make(base, 'Code', {})
        t = Code(**values)
        declared = t
        xs = (TNS, 'code')
    if where == 'attribute':
        Holder = make(xsd.ComplexType, 'Holder', {'a': xsd.Attribute(t)})
    elif where == 'list':
        Holder = make(xsd.ComplexType, 'Holder', {'a': xsd.ListElement(t, 'a')})
    else:
        Holder = make(xsd.ComplexType, 'Holder', {'a': xsd.Element(t)})
    if where == 'global':
        schema = xsd.Schema(TNS, elements={'a': xsd.Element(t)})
        node = named(py2xsd.generate_xsd(schema), 'element', 'a')
    else:
        schema = xsd.Schema(TNS, simpleTypes=(Code,) if where == 'own class in place' else (), complexTypes=(Holder,))
        ct = named(py2xsd.generate_xsd(schema), 'complexType', 'holder')
        if where == 'attribute':
            node = only(ct, 'attribute', 'an attribute is declared once')
        else:
            node = only(only(ct, 'sequence', 'elements are in one sequence'), 'element', 'an element is declared once')
    check(node.get('name') == 'a', 'a field has its name', node.get('name'))
    check(node.get('type') is None, 'a type given in place is not named', node.get('type'))
    st = only(node, 'simpleType', 'a type given in place is declared in place')
    check(st.get('name') is None, 'a type given in place has no name', st.get('name'))
    restriction_is(only(st, 'restriction', 'a simple type is a restriction'), xs, declared, where)


def builtin(base_name):
    """References to a built-in type from every position."""
    t = getattr(xsd, base_name)
    xs = (XSD, BUILTIN[base_name])
    Own = make(t, 'Own', {})
    Far = make(Own, 'Far', {})
    Holder = make(xsd.ComplexType, 'Holder', {
        'e': xsd.Element(t), 'l': xsd.ListElement(t, 'l'), 'a': xsd.Attribute(t), 'p': xsd.Element(t()), 'n': xsd.Element('soapfish.xsd.' + base_name),
        'o': xsd.Element(Own), 'ol': xsd.ListElement(Own, 'ol'), 'oa': xsd.Attribute(Own), 'op': xsd.Element(Own()), 'f': xsd.Element(Far)})
    schema = xsd.Schema(TNS, simpleTypes=[Own, Far], complexTypes=[Holder], elements={
        'e': xsd.Element(t), 'o': xsd.Element(Own), 'f': xsd.Element(Far)})
    root = py2xsd.generate_xsd(schema)
    for n, base in (('own', xs), ('far', (TNS, 'own'))):
        r = only(named(root, 'simpleType', n), 'restriction', 'a simple type is a restriction')
        check(resolve(r, r.get('base')) == base, 'a restriction names its base', (n, r.get('base')))
    ct = named(root, 'complexType', 'holder')
    seq = only(ct, 'sequence', 'elements are in one sequence')
    for n, parent, kind, want in (
            ('e', seq, 'element', xs), ('l', seq, 'element', xs), ('n', seq, 'element', xs), ('a', ct, 'attribute', xs), ('o', seq, 'element', (TNS, 'own')),
            ('ol', seq, 'element', (TNS, 'own')), ('oa', ct, 'attribute', (TNS, 'own')), ('f', seq, 'element', (TNS, 'far')),
            ('e', root, 'element', xs), ('o', root, 'element', (TNS, 'own')), ('f', root, 'element', (TNS, 'far'))):
        node = named(parent, kind, n)
        check(resolve(node, node.get('type')) == want, 'a reference names the type', (n, kind, node.get('type')))
        check(len(node) == 0, 'a reference declares nothing in place', (n, len(node)))
    for n, want in (('p', xs), ('op', (TNS, 'own'))):
        r = only(only(named(seq, 'element', n), 'simpleType', 'a type given in place is declared in place'), 'restriction', 'a simple type is a restriction')
        check(resolve(r, r.get('base')) == want, 'a restriction names its base', (n, r.get('base')))


# ---------------------------------------------------------------- complex types
def field(kind, tag, low, high, nil, use, target):
    if kind == 'element':
        return xsd.Element(target, minOccurs=low, tagname=tag, nillable=nil)
    if kind == 'inline':
        return xsd.Element(target(), minOccurs=low, tagname=tag, nillable=nil)
    if kind == 'list':
        return xsd.ListElement(target, tag, minOccurs=low, maxOccurs=high, nillable=nil)
    return xsd.Attribute(target, use=use, tagname=tag)


def bound_text(v, default):
    return default if v is None else 'unbounded' if v is xsd.UNBOUNDED else str(v)


def field_is(node, kind, fname, tag, low, high, nil, use, want):
    check(text_is(node.get('name'), fname if tag is None else tag), 'a field has its XML name', (fname, node.get('name')))
    if kind == 'attribute':
        got = node.get('use')
        check(got == use.value or got is None and use is xsd.Use.OPTIONAL, 'an attribute has its use', (fname, got))
    else:
        lo, hi = node.get('minOccurs', '1'), node.get('maxOccurs', '1')
        check(text_is(lo, bound_text(low, '0')), 'a field has its lower bound', (fname, lo, low))
        check(text_is(hi, '1' if kind != 'list' else bound_text(high, 'unbounded')), 'a field has its upper bound', (fname, hi, high))
        check(node.get('nillable', 'false') == ('true' if nil else 'false'), 'a field has its nillability', (fname, node.get('nillable'), nil))
    if kind == 'inline':
        check(node.get('type') is None, 'a type given in place is not named', node.get('type'))
        check(len(kids(node, 'complexType')) == 1, 'a type given in place is declared in place', [k.tag for k in node])
        return
    check(resolve(node, node.get('type')) == want, 'a field has its type', (fname, node.get('type'), want))


def fields(kinds, indicator, tags, inherited, varied):
    """A complex type with fields of the listed kinds (the first ones inherited), compared with its declaration."""
    bounded()
    Inner = make(xsd.ComplexType, 'Inner', {'i': xsd.Element(xsd.String), 'k': xsd.Attribute(xsd.Boolean, use=xsd.Use.OPTIONAL)})
    Code = make(xsd.String, 'Code', {'pattern': nonempty('code')})
    specs, members = [], [{}, {}]
    for i, kind in enumerate(kinds):
        fname = 'f%d' % (len(kinds) - i)        # not in alphabetical order
        target, want = [(xsd.Int, (XSD, 'int')), (Code, (TNS, 'code')), (Inner, (TNS, 'inner'))][i % 3]
        if kind == 'inline':
            target = Inner
        if kind == 'attribute' and target is Inner:
            target, want = xsd.DateTime, (XSD, 'dateTime')
        low = high = use = None
        vary = i == varied
        tag = name('tag%d' % i) if tags or kind == 'list' else None
        nil = kind != 'attribute' and (flip('nillable %s' % fname) if vary else i % 2 == 1)
        if kind in ('element', 'inline'):
            low = (0 if flip('optional ' + fname) else 1) if vary else i % 2
        elif kind == 'list':
            low = high = None
            if vary and flip('low bound ' + fname):
                low = int_between('low ' + fname, 0, None)
            if not vary or flip('high bound ' + fname):
                high = xsd.UNBOUNDED if vary and flip('unbounded ' + fname) else int_between('high ' + fname, 1, None)
        else:
            use = anyof(xsd.Use.OPTIONAL, xsd.Use.REQUIRED, xsd.Use.PROHIBITED) if vary else [xsd.Use.OPTIONAL, xsd.Use.REQUIRED][i % 2]
        members[0 if i < inherited else 1][fname] = field(kind, tag, low, high, nil, use, target)
        specs.append((kind, fname, tag, low, high, nil, use, want))
    Base = make(xsd.ComplexType, 'Base', members[0])
    if indicator:
        members[1]['INDICATOR'] = getattr(xsd, indicator)
    Holder = make(Base, 'Holder', members[1])
    schema = xsd.Schema(TNS, simpleTypes=[Code], complexTypes=[Base, Inner, Holder], elements={'h': xsd.Element(Holder)})
    root = py2xsd.generate_xsd(schema)
    check([(k.tag, k.get('name')) for k in root] == [(x('simpleType'), 'code'), (x('complexType'), 'base'), (x('complexType'), 'inner'),
                                                     (x('complexType'), 'holder'), (x('element'), 'h')],
          'the schema declares every component once', [(k.tag, k.get('name')) for k in root])
    ct = named(root, 'complexType', 'holder')
    box = only(ct, (indicator or 'Sequence').lower(), 'the elements are in the container of the indicator')
    others = [k for k in ct if k is not box and k.tag != x('attribute')]
    check(not others, 'a complex type has one container and attributes', [k.tag for k in others])
    elements, attributes = kids(box, 'element'), kids(ct, 'attribute')
    es, ats = [s for s in specs if s[0] != 'attribute'], [s for s in specs if s[0] == 'attribute']
    check(len(elements) == len(es) and len(box) == len(es), 'every element is declared once', (len(elements), len(es)))
    check(len(attributes) == len(ats), 'every attribute is declared once', (len(attributes), len(ats)))
    for node, s in zip(elements, es):
        field_is(node, *s)
        if s[0] == 'inline':
            inner = only(node, 'complexType', 'a type given in place is declared in place')
            inner_is(inner)
    for node, s in zip(attributes, ats):
        field_is(node, *s)
    inner_is(named(root, 'complexType', 'inner'))


def inner_is(ct):
    e = only(only(ct, 'sequence', 'elements are in one sequence'), 'element', 'every element is declared once')
    a = only(ct, 'attribute', 'every attribute is declared once')
    check(e.get('name') == 'i' and resolve(e, e.get('type')) == (XSD, 'string'), 'a field has its type', e.get('type'))
    check(a.get('name') == 'k' and resolve(a, a.get('type')) == (XSD, 'boolean') and a.get('use', 'optional') == 'optional',
          'a field has its type', (a.get('type'), a.get('use')))


# ---------------------------------------------------------------- schemas
def parts(simple, complex_, elements, form, subst, where):
    """Every component, import and include of a schema, in a document of its own and in a WSDL."""
    bounded()
    tns = nonempty('tns')
    distinct(tns, XSD)
    sts = [make(xsd.String, 'Simple%d' % i, {'maxLength': i}) for i in range(simple)]
    cts = [make(xsd.ComplexType, 'Complex%d' % i, {'e%d' % i: xsd.Element(xsd.String)}) for i in range(complex_)]
    els, names = {}, unknown(elements, 'element')
    groups = {}
    for i in range(elements):
        t = [xsd.Int, cts[i % complex_] if complex_ else xsd.String, cts[0]() if complex_ else xsd.Long][i % 3]
        nil = flip('nillable') if i == 0 else i % 2 == 1
        group = None
        if subst and i:
            group = names[0] if i % 2 else 'sns:' + names[0]
        groups[i] = (group, nil, t)
        els[names[i]] = xsd.Element(t, nillable=nil, substitutionGroup=group)
    for n in names:
        assume(not n.startswith('sns:'))
    near = xsd.Schema(nonempty('near'), location=name('near.xsd'))
    lone = xsd.Schema(nonempty('lone'))
    for a, b in ((near, lone), (near, None), (lone, None)):
        distinct(a.targetNamespace, b.targetNamespace if b else tns)
    part = xsd.Schema(tns, location=name('part.xsd'))
    kw = {}
    if form is not None:
        kw['elementFormDefault'] = getattr(xsd.ElementFormDefault, form)
    again = xsd.Schema(near.targetNamespace, location=name('again.xsd'))
    distinct(again.location, near.location)
    other = xsd.Schema(tns, location=name('other.xsd'))
    distinct(other.location, part.location)
    imported, included = ([near, lone], [part]) if complex_ < 2 else ([near, lone, again], [part, other])
    schema = xsd.Schema(tns, simpleTypes=sts, complexTypes=cts, elements=els, imports=imported, includes=included, **kw)
    if where == 'wsdl':
        methods = []
        service = Service('urn:service', 'http://host/', [schema], methods, version=soap11, name='S')
        found = [e for e in py2wsdl.generate_wsdl(service).iter(x('schema'))]
        check(len(found) == 1, 'the WSDL has the schema', len(found))
        if len(found) != 1:
            return
        root = found[0]
    elif where == 'program':
        root = program(py2xsd.main, 'Schema', schema)
    else:
        root = py2xsd.generate_xsd(schema)
    check(root.tag == x('schema'), 'the root is a schema', root.tag)
    check(identical(root.get('targetNamespace'), tns), 'the schema has its target namespace', root.get('targetNamespace'))
    check(root.get('elementFormDefault', 'unqualified') == (form or 'unqualified').lower(), 'the schema has its form', root.get('elementFormDefault'))
    imports = kids(root, 'import')
    check(len(imports) == len(imported), 'every import is emitted once', len(imports))
    for e, s in zip(imports, imported):
        check(identical(e.get('namespace'), s.targetNamespace), 'an import has its namespace', e.get('namespace'))
        got = e.get('schemaLocation')
        check(got is None if s.location is None else identical(got, s.location), 'an import has its location', got)
    includes = kids(root, 'include')
    check(len(includes) == len(included) and all(identical(e.get('schemaLocation'), s.location) for e, s in zip(includes, included)),
          'every include is emitted once', len(includes))
    check([k.get('name') for k in kids(root, 'simpleType')] == ['simple%d' % i for i in range(simple)], 'every simple type is declared once',
          [k.get('name') for k in kids(root, 'simpleType')])
    for i, k in enumerate(kids(root, 'simpleType')):
        restriction_is(only(k, 'restriction', 'a simple type is a restriction'), (XSD, 'string'), sts[i], 'simpleType')
    got = kids(root, 'complexType')
    check([k.get('name') for k in got] == ['complex%d' % i for i in range(complex_)], 'every complex type is declared once', [k.get('name') for k in got])
    for i, k in enumerate(got):
        e = only(only(k, 'sequence', 'elements are in one sequence'), 'element', 'every element is declared once')
        check(e.get('name') == 'e%d' % i, 'a complex type has its fields', e.get('name'))
    got = kids(root, 'element')
    check(len(got) == elements, 'every global element is declared once', len(got))
    for i, e in enumerate(got):
        group, nil, t = groups[i]
        check(identical(e.get('name'), names[i]), 'a global element has its name', e.get('name'))
        check(e.get('nillable', 'false') == ('true' if nil else 'false'), 'a global element has its nillability', e.get('nillable'))
        if group is None:
            check(e.get('substitutionGroup') is None, 'a global element has its substitution group', e.get('substitutionGroup'))
        else:
            got = e.get('substitutionGroup')
            prefix, n = got.split(':', 1) if got is not None and ':' in got else (None, got)
            check(identical(n, names[0]) and identical(e.nsmap.get(prefix), tns), 'a global element has its substitution group', got)
        if isinstance(t, xsd.ComplexType):
            check(len(kids(e, 'complexType')) == 1 and e.get('type') is None, 'a type given in place is declared in place', [k.tag for k in e])
        else:
            want = {xsd.Int: 'int', xsd.Long: 'long', xsd.String: 'string'}.get(t)
            prefix, n = e.get('type').split(':', 1)
            space = e.nsmap.get(prefix)
            if want is None:
                check(n == 'complex%d' % (i % complex_) and identical(space, tns), 'a global element has its type', e.get('type'))
            else:
                check(n == want and space == XSD, 'a global element has its type', e.get('type'))
    rest = [k.tag for k in root if k.tag not in [x(t) for t in ('import', 'include', 'simpleType', 'complexType', 'element')]]
    check(not rest, 'nothing else is declared', rest)


def unknown(count, what):
    names = [name('%s %d' % (what, i)) for i in range(count)]
    for i in range(count):
        for j in range(i):
            distinct(names[i], names[j])
    return names


# ---------------------------------------------------------------- several schemas
def imported_types(where):
    """A field whose type is declared in an imported schema refers to it there."""
    Far = make(xsd.ComplexType, 'Far', {'f': xsd.Element(xsd.String)})
    Code = make(xsd.String, 'Code', {'maxLength': 1})
    Near = make(xsd.ComplexType, 'Near', {where: xsd.Attribute(Code) if where == 'attribute' else
                                          xsd.ListElement(Far, 'n') if where == 'list' else xsd.Element(Far)})
    far = xsd.Schema('urn:probe:far', location='far.xsd', complexTypes=[Far], simpleTypes=[Code])
    near = xsd.Schema('urn:probe:near', imports=[far], complexTypes=[Near])
    root = py2xsd.generate_xsd(near)
    got = [resolve(e, e.get('type')) for t in ('element', 'attribute') for e in root.iter(x(t))]
    check(got == [('urn:probe:far', 'code' if where == 'attribute' else 'far')], 'a type of an imported schema is named in its namespace', got)


def same_document(a, b):
    """Two documents declare the same; written out, the one is the other."""
    if a.tag != b.tag or len(a) != len(b) or sorted(a.attrib.items()) != sorted(b.attrib.items()):
        return False
    return all(same_document(i, j) for i, j in zip(a, b))


def validator(count, twice):
    """Messages are validated against the documents generated for the schemas, the imported ones included."""
    bounded()
    types = [make(xsd.ComplexType, 'T%d' % i, {'f%d' % i: xsd.Element(xsd.String)}) for i in range(4)]
    far = xsd.Schema('urn:far', location='far.xsd', complexTypes=[types[3]], elements={'far': xsd.Element(types[3])} if twice else None)
    part = xsd.Schema('urn:0', location='part.xsd', elements={'part': xsd.Element(xsd.Int)})
    schemas = [xsd.Schema('urn:%d' % i, complexTypes=[types[i]], elements={'e%d' % i: xsd.Element(types[i])}, imports=[far],
                          includes=[part] if i == 0 else []) for i in range(count)]
    if twice:
        py2xsd.schema_validator(schemas[:1])
    asked = []
    verdict = flip('valid')

    def valid(schema, doc):
        asked.append((schema, doc))
        return verdict
    xml_hooks(valid=valid)
    validate = py2xsd.schema_validator(schemas)
    doc = etree.Element('doc')
    refused = False
    try:
        validate(doc)
    except Exception:
        refused = True
    check(len(asked) == 1 and asked[0][1] is doc, 'a document is validated once', len(asked))
    if len(asked) != 1:
        return
    source = asked[0][0].source
    check(refused == (not verdict), 'what is invalid is refused', refused)
    resolvers = [e.args[1] for e in events('resolver', 'add')]
    check(bool(resolvers), 'imports are resolved by the validator')
    if not resolvers:
        return
    # every document the validator can get at, starting from its root
    want = {'urn:%d' % i: py2xsd.generate_xsd(schemas[i]) for i in range(count)}
    want['urn:far'] = py2xsd.generate_xsd(far)
    reached, todo, seen = [source], [source], []
    while todo:
        root = todo.pop()
        for e in list(root.iter(x('import'))) + list(root.iter(x('include'))):
            location = e.get('schemaLocation')
            check(location is not None, 'every schema has a location', e.get('namespace'))
            if location is None or location in seen:
                continue
            seen.append(location)
            resolvers[-1].resolve(location, None, None)
            found = [ev.args[0] for ev in events('resolve', 'resolve_string')]
            check(len(found) == len(seen), 'imports are resolved by the validator', location)
            if len(found) != len(seen):
                return
            tree = tree_of(found[-1])
            check(tree is not None, 'imports are resolved to schemas', location)
            if tree is None:
                return
            check(identical(tree.get('targetNamespace'), e.get('namespace') or root.get('targetNamespace')),
                  'imports are resolved to the schema of that namespace', location)
            reached.append(tree)
            todo.append(tree)
    for n in want:
        check(len([r for r in reached if r.get('targetNamespace') == n and same_document(r, want[n])]) == 1,
              'messages are validated against the generated schemas', n)
    check(any(r.get('targetNamespace') == 'urn:0' and same_document(r, py2xsd.generate_xsd(part)) for r in reached),
          'messages are validated against the generated schemas', 'part')
    try:
        resolvers[-1].resolve('http://elsewhere/x.xsd', None, None)
    except Exception:
        pass
    check(len([ev for ev in events('resolve', 'resolve_string')]) == len(seen) and not [ev for ev in events('io')],
          'nothing else is fetched')


# ---------------------------------------------------------------- WSDL
def w(n):
    return '{%s}%s' % (WSDL, n)


def one_of(parent, tag, what):
    found = [k for k in parent if k.tag == tag]
    check(len(found) == 1, what, (tag, len(found)))
    if len(found) != 1:
        stop()
    return found[0]


def target(root, tag, qname, at, what):
    """The one component of the document a qualified name refers to."""
    check(qname is not None, what, tag)
    if qname is None:
        stop()
    head, local = qname.split(':', 1)
    space = at.nsmap.get(head)
    check(identical(space, root.get('targetNamespace')), 'a reference is in the target namespace', (tag, qname))
    found = [k for k in root if k.tag == tag and identical(k.get('name'), local)]
    check(len(found) == 1, what, (tag, qname, len(found)))
    if len(found) != 1:
        stop()
    return found[0]


class Given:
    """Arguments of a program, or the contents of a module."""


def program(main, attr, thing):
    """The document a program of the package writes for a module which has the thing."""
    given, module, written, loaded, shown = Given(), Given(), [], [], []
    argument = sym('path of the module', str)
    setattr(module, attr, thing)

    class Out:
        def write(self, data):
            written.append(data)

        def flush(self):
            pass

    class Parser:
        def __init__(self, *a, **k):
            pass

        def add_argument(self, *a, **k):
            pass

        def parse_args(self, argv=None, **k):
            shown.append(argv)
            return given

    class Loader:
        def __init__(self, fullname, path):
            loaded.append(path)

        def load_module(self, *a):
            return module
    given.module, given.output = argument, Out()
    provide('argparse.ArgumentParser', Parser)
    provide('importlib.machinery.SourceFileLoader', Loader)
    args = [argument]
    code = main(args)
    check(code is None or code == 0, 'the program succeeds', code)
    check(len(shown) == 1 and list(shown[0]) == args, 'the program reads the arguments it is given', shown)
    check(len(loaded) == 1 and identical(loaded[0], argument), 'the program loads the module it is given', loaded)
    check(len(written) > 0 and all(isinstance(d, bytes) for d in written), 'the program writes a document, as bytes', len(written))
    return etree.fromstring(written[0] if len(written) == 1 else b''.join(written))


def wsdl(version, methods, nschemas, tns_same, main=False):
    """methods: ((input kind, output kind, style), ...); the kinds are 'element N', 'type N', 'builtin', 'far element', 'far type'."""
    bounded()
    soapns = SOAPNS[version]
    types = [make(xsd.ComplexType, 'T%d' % i, {'f%d' % i: xsd.Element(xsd.String)}) for i in range(nschemas)]
    Far = make(xsd.ComplexType, 'Far', {'f': xsd.Element(xsd.Int)})
    far = xsd.Schema('urn:far', location='far.xsd', complexTypes=[Far], elements={'farElement': xsd.Element(Far)})
    spaces = ['urn:schema:%d' % i for i in range(nschemas)]
    schemas = [xsd.Schema(spaces[i], complexTypes=[types[i]], elements={'e%d' % i: xsd.Element(types[i])}, imports=[far])
               for i in range(nschemas)]
    ops = unknown(len(methods), 'operation')
    built, want = [], []
    for i, (inp, out, style) in enumerate(methods):
        args, meant = [], []
        for kind in (inp, out):
            k, n = kind
            if k == 'element':
                args.append('e%d' % n)
                meant.append(('element', spaces[n], 'e%d' % n))
            elif k == 'type':
                args.append(types[n])
                meant.append(('type', spaces[n], 't%d' % n))
            elif k == 'builtin':
                args.append(getattr(xsd, n))
                meant.append(('type', XSD, BUILTIN[n]))
            elif k == 'far element':
                args.append('farElement')
                meant.append(('element', 'urn:far', 'farElement'))
            else:
                args.append(Far)
                meant.append(('type', 'urn:far', 'far'))
        action = sym('action %d' % i, str)
        kw = {}
        if style is not None:
            kw['style'] = getattr(xsd.CallStyle, style)
        if i % 2 == 0:
            kw['inputPartName'] = name('in part %d' % i)
            kw['outputPartName'] = name('out part %d' % i)
        m = xsd.Method(operationName=ops[i], soapAction=action, input=args[0], output=args[1], function=None, **kw)
        built.append(m)
        want.append((ops[i], action, meant, (style or 'document').lower(), kw.get('inputPartName', 'body'), kw.get('outputPartName', 'body')))
    tns = spaces[0] if tns_same else nonempty('tns')
    if not tns_same:
        for s in spaces + ['urn:far', XSD, WSDL, soapns]:
            distinct(tns, s)
    location, label = sym('location', str), name('service')
    service = Service(tns, location, schemas, built, version=VERSIONS[version], name=label)
    root = program(py2wsdl.main, 'SERVICE', service) if main else py2wsdl.generate_wsdl(service)
    check(root.tag == w('definitions'), 'the document is a WSDL', root.tag)
    check(identical(root.get('targetNamespace'), tns), 'the document has the namespace of the service', root.get('targetNamespace'))
    check(sorted([k.tag for k in root]) == sorted([w('types')] + 2 * len(methods) * [w('message')] + [w('portType'), w('binding'), w('service')]),
          'the document has the components of the service and no others', [k.tag for k in root])
    got = [k for k in one_of(root, w('types'), 'the document has types')]
    check([(k.tag, k.get('targetNamespace')) for k in got] == [(x('schema'), s) for s in spaces], 'the document has every schema once',
          [k.get('targetNamespace') for k in got])
    # the types and elements declared in the document refer to their own namespaces
    for i, k in enumerate(got):
        e = named(k, 'element', 'e%d' % i)
        check(resolve(e, e.get('type')) == (spaces[i], 't%d' % i), 'an element refers to its type', e.get('type'))
        named(k, 'complexType', 't%d' % i)
    s = one_of(root, w('service'), 'the document has the service')
    check(identical(s.get('name'), label), 'the service has its name', s.get('name'))
    port = one_of(s, w('port'), 'the service has one port')
    address = one_of(port, '{%s}address' % soapns, 'the port has one address in the namespace of the SOAP version')
    check(identical(address.get('location'), location), 'the address is the location of the service', address.get('location'))
    binding = target(root, w('binding'), port.get('binding'), port, 'the port refers to the binding')
    b = one_of(binding, '{%s}binding' % soapns, 'the binding is for the SOAP version')
    check(b.get('transport') == HTTP and b.get('style', 'document') in ('document', 'rpc'), 'the binding is for HTTP', b.get('transport'))
    port_type = target(root, w('portType'), binding.get('type'), binding, 'the binding refers to the port type')
    bops = [k for k in binding if k.tag == w('operation')]
    pops = [k for k in port_type if k.tag == w('operation')]
    check(len(bops) == len(methods) and len(pops) == len(methods), 'every method has one operation', (len(bops), len(pops)))
    for op, action, meant, style, in_part, out_part in want:
        mine = [k for k in bops if identical(k.get('name'), op)]
        check(len(mine) == 1, 'every method has one operation in the binding', (op, len(mine)))
        ours = [k for k in pops if identical(k.get('name'), op)]
        check(len(ours) == 1, 'every method has one operation in the port type', (op, len(ours)))
        if len(mine) != 1 or len(ours) != 1:
            return
        o = one_of(mine[0], '{%s}operation' % soapns, 'an operation is bound to the SOAP version')
        check(identical(o.get('soapAction'), action), 'an operation has its action', o.get('soapAction'))
        check(o.get('style', b.get('style', 'document')) == style, 'an operation has its style', o.get('style'))
        for kind, (what, space, local), part_name in (('input', meant[0], in_part), ('output', meant[1], out_part)):
            body = one_of(one_of(mine[0], w(kind), 'an operation has input and output'), '{%s}body' % soapns, 'input and output have a body')
            check(body.get('use') == 'literal', 'a body is literal', body.get('use'))
            ref = one_of(ours[0], w(kind), 'an operation has input and output')
            message = target(root, w('message'), ref.get('message'), ref, 'an operation refers to its messages')
            part = one_of(message, w('part'), 'a message has one part')
            check(identical(part.get('name'), part_name), 'a part has its name', part.get('name'))
            check(resolve(part, part.get(what)) == (space, local), 'a part refers to what the method declares', (what, part.get(what)))
            check(part.get('type' if what == 'element' else 'element') is None, 'a part is either an element or a type', part.get('type'))
