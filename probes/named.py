"""C33: a type given by its dotted name, as a class or as an object is the same type."""
from lxml import etree

from soapfish import py2xsd, soap11, xsd
from soapfish.core import SOAPRequest
from soapfish.soap import Service
from soapfish.soap_dispatch import SOAPDispatcher

Meta = type(xsd.ComplexType)
XS = '{http://www.w3.org/2001/XMLSchema}'


class Code(xsd.String):
    enumeration = ['AA', 'BB']


class Small(xsd.Integer):
    maxInclusive = 10
    minInclusive = -3


class Short(xsd.String):
    maxLength = 3
    minLength = 2


class Padded(xsd.String):
    whiteSpace = 'collapse'
    pattern = '[ab]+'


class Digits(xsd.Integer):
    totalDigits = 3
    minExclusive = 0


class Part(xsd.ComplexType):
    n = xsd.Element(xsd.Int, minOccurs=0)
    code = xsd.Attribute(Code, use=xsd.Use.OPTIONAL)


class PartChild(Part):
    m = xsd.Element(xsd.Int, minOccurs=0)


class Grp(xsd.Group):
    g = xsd.Element(xsd.Int, minOccurs=0)


class AGrp(xsd.AttributeGroup):
    a = xsd.Attribute(xsd.Int, use=xsd.Use.OPTIONAL)


class Node(xsd.ComplexType):
    """Refers to itself and to a class declared later, in every way."""
    first = xsd.Element('probe.named.Node', minOccurs=0)
    all = xsd.ListElement('probe.named.Node', 'node', minOccurs=0, maxOccurs=xsd.UNBOUNDED)
    leaf = xsd.Element('probe.named.Leaf')
    leaves = xsd.ListElement('probe.named.Leaf', 'leafs', nillable=True)
    mark = xsd.Attribute('probe.named.Mark', use=xsd.Use.OPTIONAL)


class Leaf(xsd.ComplexType):
    node = xsd.Element('probe.named.Node', nillable=True, minOccurs=0)
    mark = xsd.Element('probe.named.Mark', default='m')


class Mark(xsd.String):
    maxLength = 3


NAMES = {
    'builtin': ('soapfish.xsd.Int', xsd.Int), 'text': ('soapfish.xsd.String', xsd.String), 'flag': ('soapfish.xsd.Boolean', xsd.Boolean),
    'code': ('probe.named.Code', Code), 'small': ('probe.named.Small', Small), 'complex': ('probe.named.Part', Part),
    'short': ('probe.named.Short', Short), 'padded': ('probe.named.Padded', Padded), 'digits': ('probe.named.Digits', Digits),
    'group': ('probe.named.Grp', Grp), 'agroup': ('probe.named.AGrp', AGrp),
}


# objects with the same facets as the classes
OBJECTS = {
    'code': lambda: xsd.String(enumeration=['AA', 'BB']), 'small': lambda: xsd.Integer(maxInclusive=10, minInclusive=-3),
    'short': lambda: xsd.String(maxLength=3, minLength=2), 'padded': lambda: xsd.String(whiteSpace='collapse', pattern='[ab]+'),
    'digits': lambda: xsd.Integer(totalDigits=3, minExclusive=0),
}


def make(base, n, members):
    return Meta(n, (base,), dict(members)) if issubclass(base, xsd.ComplexType) else type(n, (base,), dict(members))


TEXTS = ('text', 'code', 'short', 'padded')


def given(kind, how):
    name, cls = NAMES[kind]
    if how == 'object' and kind in OBJECTS:
        return OBJECTS[kind]()
    return name if how == 'name' else cls() if how == 'object' else cls


def declared(kind, place, how):
    """A class with a field of the type, given in some way."""
    t = given(kind, how)
    if place == 'element':
        f = xsd.Element(t, minOccurs=0)
    elif place == 'required':
        f = xsd.Element(t, nillable=True, tagname='f-tag')
    elif place == 'list':
        f = xsd.ListElement(t, 'item', minOccurs=0, maxOccurs=3, nillable=True)
    elif place == 'attribute':
        f = xsd.Attribute(t, use=xsd.Use.OPTIONAL, tagname='a-tag')
    elif place == 'needed':
        f = xsd.Attribute(t)
    elif place == 'ref':
        f = xsd.Ref(t)
    if place == 'grouped':
        g = make(xsd.Group, 'G', {'f': xsd.Element(t, minOccurs=0)})
        f = xsd.Ref(g)
    elif place == 'attributes':
        g = make(xsd.AttributeGroup, 'AG', {'f': xsd.Attribute(t, use=xsd.Use.OPTIONAL)})
        f = xsd.Ref(g)
    return make(xsd.ComplexType, 'Holder', {'f': f, 'other': xsd.Element(xsd.String, minOccurs=0)})


def owner(obj, place):
    return obj.f if place in ('grouped', 'attributes', 'ref') else obj


def field(kind, place):
    return 'g' if kind == 'group' else 'a' if kind == 'agroup' else 'f'


def put(obj, kind, place, value, how):
    o, f = owner(obj, place), field(kind, place)
    try:
        if place != 'list':
            setattr(o, f, value)
        elif how == 'append':
            o.f.append(value)
        elif how == 'whole':
            o.f = [value]
        else:
            o.f.extend([value, value])
    except ValueError:
        return False
    return True


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same(i, j) for i, j in zip(a, b))
    if a is None or b is None or a is xsd.NIL or b is xsd.NIL:
        return a is b
    if isinstance(a, xsd.ComplexType):
        return type(a) is type(b) and all(same(getattr(a, f._name), getattr(b, f._name)) for f in type(a)._meta.all)
    return a == b


def picture(e):
    return (e.tag, sorted(e.attrib.items()), e.text, [picture(k) for k in e])


def written(obj):
    try:
        return picture(tree_of(obj.xml('root')))
    except ValueError:
        return None


def same_outcome(kind, place, how):
    """What is accepted, stored and written is the same, however the type is given."""
    bounded()
    plain, other = declared(kind, place, 'class')(), declared(kind, place, how)()
    check(same(getattr(owner(plain, place), field(kind, place)), getattr(owner(other, place), field(kind, place))), 'an empty object is the same')
    what = anyof('none', 'nil', 'unknown', 'part', 'child', 'other')
    v = {'none': None, 'nil': xsd.NIL, 'unknown': None, 'part': None, 'child': None, 'other': None}[what]
    if what == 'unknown':
        v = sym('VALUE', *((str,) if kind in TEXTS else (int,)))
    elif what in ('part', 'child'):
        v = (Part if what == 'part' else PartChild)(n=3, code='AA')
    elif what == 'other':
        v = Node() if flip('object of another class') else 'text'
    way = anyof('append', 'whole', 'extend') if place == 'list' else 'assign'
    a = put(plain, kind, place, v, way)
    b = put(other, kind, place, v, way)
    check(a == b, 'a value is accepted however the type is given, or refused', (what, a, b))
    check(same(getattr(owner(plain, place), field(kind, place)), getattr(owner(other, place), field(kind, place))), 'the same value is stored', what)
    a, b = written(plain), written(other)
    check((a is None) == (b is None), 'the same objects can be written', (what, a, b))
    if a is not None and b is not None:
        check(a == b, 'the same is written', (what, a, b))


def same_reading(kind, place, how):
    """A document is read the same, however the type is given."""
    bounded()
    A, B = declared(kind, place, 'class'), declared(kind, place, how)
    e = etree.Element('root')
    text = sym('text', str) if kind in TEXTS else anyof('7', '-4', 'true', 'x')
    if place in ('attribute', 'needed', 'attributes') or kind == 'agroup':
        if flip('the attribute is present'):
            e.set({'attribute': 'a-tag', 'ref': 'a'}.get(place, 'f'), text)
    else:
        tag = {'required': 'f-tag', 'list': 'item', 'ref': 'g'}.get(place, 'f')
        for i in range(anyof(0, 1, 2) if place == 'list' else anyof(0, 1)):
            k = etree.SubElement(e, tag)
            if kind == 'complex':
                etree.SubElement(k, 'n').text = '5'
                k.set('code', sym('code', str))
            else:
                k.text = text
    first = flip('the one given in another way reads first')
    try:
        b = B.parse_xmlelement(e) if first else None
    except ValueError:
        b = ValueError
    try:
        a = A.parse_xmlelement(e)
    except ValueError:
        a = ValueError
    try:
        b = b if first else B.parse_xmlelement(e)
    except ValueError:
        b = ValueError
    check((a is ValueError) == (b is ValueError), 'the same documents can be read', (a, b))
    if a is not ValueError and b is not ValueError:
        check(same(getattr(owner(a, place), field(kind, place)), getattr(owner(b, place), field(kind, place))), 'the same value is read')
        check(place in ('grouped', 'attributes') or type(getattr(b, 'f')) is type(getattr(a, 'f')), 'a value of the declared type is read', getattr(b, 'f'))


def same_documents(a, b):
    if a.tag != b.tag or len(a) != len(b) or sorted(a.attrib.items()) != sorted(b.attrib.items()):
        return False
    return all(same_documents(i, j) for i, j in zip(a, b))


def same_schema(kind, place):
    """The generated document is the same for a name as for a class."""
    bounded()
    roots = []
    for how in ('class', 'name'):
        kw = {'simpleTypes': [NAMES[kind][1]] if kind in OBJECTS else [], 'complexTypes': [Part] if kind == 'complex' else []}
        if place == 'global':
            schema = xsd.Schema('urn:s', elements={'e': xsd.Element(given(kind, how))}, **kw)
        elif place == 'inline':
            schema = xsd.Schema('urn:s', elements={'e': xsd.Element(declared(kind, 'element', how)())}, **kw)
        elif place == 'nested':
            outer = make(xsd.ComplexType, 'Outer', {'h': xsd.Element(declared(kind, 'list', how)(), minOccurs=0)})
            schema = xsd.Schema('urn:s', complexTypes=kw.pop('complexTypes') + [outer], **kw)
        else:
            kw['complexTypes'] = kw['complexTypes'] + [declared(kind, place, how)]
            schema = xsd.Schema('urn:s', **kw)
        roots.append(py2xsd.generate_xsd(schema))
    check(same_documents(roots[0], roots[1]), 'the same document is generated', [etree.tostring(r) for r in roots])


def recursive(depth):
    """Classes may refer to themselves and to each other by name."""
    bounded()
    made = Node()
    check(made.first is None and made.leaf is None and len(made.all) == 0, 'an empty object has no values')
    at = made
    for i in range(depth):
        nxt = Node(leaf=Leaf(), mark='m%d' % i)
        if i % 2:
            at.first = nxt
        else:
            at.all.append(nxt)
            at.all.append(Node(leaf=Leaf(node=Node(leaf=Leaf()), mark='q')))
        at.leaves.append(Leaf(node=xsd.NIL))
        at.leaves.append(xsd.NIL)
        at.leaf = Leaf(node=nxt) if i == 0 else Leaf()
        at = nxt
    made.leaf = made.leaf or Leaf()
    for bad in (made, 'text', 5):
        try:
            Leaf(mark=bad)
            ok = isinstance(bad, str) and len(bad) <= 3
        except ValueError:
            ok = True
        check(ok, 'a value of another type is refused', bad)
    back = Node.parsexml(made.xml('node'))
    check(same(made, back), 'an object of such classes is read back as written')
    root = py2xsd.generate_xsd(xsd.Schema('urn:s', simpleTypes=[Mark], complexTypes=[Node, Leaf], elements={'n': xsd.Element('probe.named.Node')}))
    got = sorted((e.get('name') or '', (e.get('type') or '').split(':')[-1]) for e in root.iter(XS + 'element', XS + 'attribute'))
    want = [('first', 'node'), ('leaf', 'leaf'), ('leafs', 'leaf'), ('mark', 'mark'), ('mark', 'mark'), ('n', 'node'), ('node', 'node'), ('node', 'node')]
    check(got == want, 'the document refers to the types', got)
    check(Node.SCHEMA is not None and Leaf.SCHEMA is Node.SCHEMA, 'the types belong to their schema')


def late(place):
    """A name is looked up when a value needs the type, not when the class is declared."""
    t = 'probe.named.Later'
    if place == 'list':
        f = xsd.ListElement(t, 'item')
    elif place == 'attribute':
        f = xsd.Attribute(t, use=xsd.Use.OPTIONAL)
    else:
        f = xsd.Element(t, minOccurs=0)
    cls = make(xsd.ComplexType, 'Holder', {'f': f})
    a = cls()
    b = cls(f=[]) if place == 'list' else cls(f=None)
    if place == 'attribute':
        Later = make(xsd.String, 'Later', {'maxLength': 2})
        good, bad = 'ab', 'abc'
    else:
        Later = make(xsd.ComplexType, 'Later', {'x': xsd.Element(xsd.Int)})
        good, bad = Later(x=3), Part()
    globals_set('probe.named', 'Later', Later)
    for o in (a, b, cls()):
        for v, ok in ((bad, False), (good, True)):
            done = True
            try:
                if place == 'list':
                    o.f.append(v)
                else:
                    o.f = v
            except ValueError:
                done = False
            check(done == ok, 'a value is accepted by the type of the name', v)


def service(how, position):
    """Operations on elements whose type is given by name."""
    bounded()
    seen = []

    def handle(request, value):
        seen.append(value)
        return Part(n=4, code='BB')
    elements = {}
    elements['ask'] = xsd.Element(given('complex', how if position != 'output' else 'class'))
    elements['reply'] = xsd.Element(given('complex', how if position != 'input' else 'class'))
    schema = xsd.Schema('urn:s', simpleTypes=[Code], complexTypes=[Part], elements=elements)
    method = xsd.Method(operationName='Ask', soapAction='urn:ask', input='ask', output='reply', function=handle)
    s = Service('urn:t', 'http://host/', [schema], [method], version=soap11, name='S')
    n = int_between('n', -9, 9)
    body = etree.Element('{urn:s}ask')
    etree.SubElement(body, 'n').text = str(n)
    xml_hooks(valid=lambda schema, doc: True)
    d = SOAPDispatcher(s)
    env = etree.Element('{http://schemas.xmlsoap.org/soap/envelope/}Envelope')
    etree.SubElement(env, '{http://schemas.xmlsoap.org/soap/envelope/}Body').append(body)
    r = d.dispatch(SOAPRequest({'REQUEST_METHOD': 'POST', 'CONTENT_TYPE': 'text/xml', 'SOAPACTION': '"urn:ask"'}, etree.tostring(env)))
    check(r.http_status_code == 200, 'the request is served', r.http_status_code)
    check(len(seen) == 1 and type(seen[0]) is Part and seen[0].n == n, 'the handler gets an object of the type', seen)
    root = tree_of(r.http_content)
    found = [e for e in root.iter() if e.tag.endswith('reply')]
    check(len(found) == 1 and found[0].get('code') == 'BB' and [k.text for k in found[0]] == ['4'], 'the answer is of the type', picture(root))


def refused():
    """A name which is not dotted is refused, as is a name of nothing."""
    n = sym('name', str)
    if flip('dotted'):
        n = 'probe.named.Nothing'
        refusals = (ValueError, AttributeError, ImportError)
    else:
        assume('.' not in n)
        refusals = (ValueError,)
    field_ = anyof(xsd.Element, xsd.Attribute)
    cls = make(xsd.ComplexType, 'Holder', {'f': field_(n)})
    obj = cls()
    try:
        obj.f = 'text'
        check(False, 'a name of no type is refused', n)
    except refusals:
        check(obj.f is None, 'a name of no type is refused', n)
