"""C32: lookups by name; C31: WS-Addressing headers."""
from soapfish import soap, utils, wsa, wsdl, wsdl11, wsdl12, xsd, xsdspec
from soapfish.soap import Service

MODEL = {'11': wsdl11, '12': wsdl12}
ANONYMOUS = 'http://www.w3.org/2005/08/addressing/anonymous'


# ---------------------------------------------------------------- elements of schemas
def graph(shape):
    """Schemas by name: shape is {name: (imports, includes)}; every schema n declares the element 'in_n' and 'common' if its name is upper."""
    made = {}
    for n in shape:
        elements = {'in_' + n: xsd.Element(xsd.String)}
        if n.isupper():
            elements['common'] = xsd.Element(xsd.Integer)
        made[n] = xsd.Schema('urn:' + n, elements=elements, location=n + '.xsd')
    for n, (imports, includes) in shape.items():
        made[n].imports = tuple(made[i] for i in imports)
        made[n].includes = tuple(made[i] for i in includes)
    return made


def reach(shape, roots):
    seen, todo = [], list(roots)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.append(n)
        todo.extend(shape[n][0])
        todo.extend(shape[n][1])
    return seen


def element_lookup(shape, roots, how):
    bounded()
    shape = dict(shape)
    made = graph(shape)
    if how == 'service':
        find = Service('urn:s', 'loc', [made[r] for r in roots], []).find_element_by_name
    else:
        find = made[roots[0]].get_element_by_name
        roots = roots[:1]
    inside = reach(shape, roots)
    for n in shape:
        got = find('in_' + n)
        if n in inside:
            check(got is made[n].elements['in_' + n], 'an element is found wherever it is declared', (n, got))
        else:
            check(got is None, 'an element of another schema is not found', (n, got))
    got = find('common')
    owners = [made[n].elements['common'] for n in inside if n.isupper()]
    if owners:
        check(any(got is o for o in owners), 'an element declared more than once is found', got)
    else:
        check(got is None, 'an element nobody declares is not found', got)
    name = sym('name', str)
    distinct(name, 'common')
    for n in shape:
        distinct(name, 'in_' + n)
    check(find(name) is None, 'an element nobody declares is not found')
    again = find('in_' + roots[0])
    check(again is made[roots[0]].elements['in_' + roots[0]], 'a lookup does not depend on the ones before it', again)


def falsy_element():
    """An element is found whatever it looks like."""
    made = graph({'a': (('b',), ()), 'b': ((), ())})
    s = Service('urn:s', 'loc', [made['a']], [])
    name = sym('name', str)
    distinct(name, 'in_a')
    distinct(name, 'in_b')
    e = xsd.Element(xsd.String, minOccurs=0)
    made['b'].elements[name] = e
    check(s.find_element_by_name(name) is e, 'an element is found under any name', s.find_element_by_name(name))


# ---------------------------------------------------------------- documents
def local(n):
    """An unknown name without a prefix."""
    s = nonempty(n)
    assume(':' not in s)
    return s


def named(how, n, prefix):
    if how == 'plain':
        return n
    return prefix + ':' + n


def by_name(how, v, what, count):
    m = MODEL[v]
    cls = {'message': m.Message, 'portType': m.PortType, 'binding': m.Binding, 'part': m.Part, 'operation': m.Operation}[what]
    names = [local('name%d' % i) for i in range(count)]
    for i in range(count):
        for j in range(i):
            distinct(names[i], names[j])
    items = [cls(name=n) for n in names]
    prefix = local('prefix')
    for i in range(count):
        got = wsdl.get_by_name(items, named(how, names[i], prefix))
        check(got is items[i], 'the item with exactly that name is returned', got)
    other = local('other')
    for n in names:
        distinct(other, n)
    try:
        got = wsdl.get_by_name(items, named(how, other, prefix))
    except Exception:
        check(True, 'refused')
        return
    fail('a name nothing has is refused', got)


def near_names(v):
    m = MODEL[v]
    items = [m.Message(name=n) for n in ('Get', 'get', 'GetAll', 'AllGet', 'ns', 'Getns')]
    for i in items:
        check(wsdl.get_by_name(items, i.name) is i, 'names are compared exactly', i.name)
        check(wsdl.get_by_name(items, 'ns:' + i.name) is i, 'the prefix is ignored', i.name)
    for n in ('GET', 'All', 'Ge', 'ns:', '', 'tns:All', 'Get:x', 'Get.'):
        try:
            got = wsdl.get_by_name(items, n)
        except Exception:
            continue
        fail('a name nothing has is refused', (n, got))


def build(v, names, prefix):
    m = MODEL[v]
    d = m.Definitions(targetNamespace='urn:t')
    for n in ('m1', 'm2', 'm3', 'm4', 'h1', 'h2'):
        msg = m.Message(name=names[n])
        msg.parts.append(m.Part(name=names['p1'], element='e1' + n))
        msg.parts.append(m.Part(name=names['p2'], element='e2' + n))
        d.messages.append(msg)

    def op(name, i, o):
        x = m.Operation(name=names[name])
        if i is not None:
            x.input = m.Input(message=prefix + ':' + names[i])
        if o is not None:
            x.output = m.Output(message=prefix + ':' + names[o])
        return x

    pt1, pt2 = m.PortType(name=names['pt1']), m.PortType(name=names['pt2'])
    pt1.operations.append(op('o1', 'm1', 'm2'))
    pt1.operations.append(op('o2', 'm3', None))
    pt2.operations.append(op('o2', 'm2', 'm4'))
    pt2.operations.append(op('o1', None, 'm1'))
    d.portTypes.append(pt1)
    d.portTypes.append(pt2)
    return m, d


def messages_of(v):
    names = {}
    for n in ('m1', 'm2', 'm3', 'm4', 'h1', 'h2', 'p1', 'p2', 'o1', 'o2', 'pt1', 'pt2'):
        names[n] = local(n)
        for other in names:
            if other != n and other[0] == n[0] or other[0] + n[0] in ('mh', 'hm'):
                distinct(names[n], names[other])
    prefix = local('prefix')
    m, d = build(v, names, prefix)
    byname = {x: i for x, i in zip(('m1', 'm2', 'm3', 'm4', 'h1', 'h2'), d.messages)}
    b1, b2 = m.Binding(name='b1', type=prefix + ':' + names['pt1']), m.Binding(name='b2', type=names['pt2'])
    want = {('o1', 1): ('m1', 'm2'), ('o2', 1): ('m3', None), ('o2', 2): ('m2', 'm4'), ('o1', 2): (None, 'm1')}
    for (o, b), (i, out) in want.items():
        bop = m.Operation(name=names[o])
        binding = b1 if b == 1 else b2
        for x, w in (('input', i), ('output', out)):
            got = wsdl.get_message_object(d, binding, bop, x)
            if w is None:
                check(got is None, 'a direction the operation does not have has no message', got)
            else:
                check(got is byname[w], 'the message of the operation of the port type is returned', (o, b, x, got))
    stranger = m.Operation(name=local('stranger'))
    distinct(stranger.name, names['o1'])
    distinct(stranger.name, names['o2'])
    try:
        got = wsdl.get_message_object(d, b1, stranger, 'input')
    except Exception:
        pass
    else:
        fail('an operation the port type does not have is refused', got)
    # headers
    bop = m.Operation(name=names['o1'])
    check(wsdl.get_message_header(d, b1, bop, 'input') is None or wsdl.get_message_header(d, b1, bop, 'input') == [],
          'an operation without input has no header')
    bop.input = m.Input()
    check(list(wsdl.get_message_header(d, b1, bop, 'input')) == [], 'an input without headers has none')
    bop.input.headers.append(m.SOAP_Header(message=prefix + ':' + names['h2'], part=names['p1'], use='literal'))
    bop.input.headers.append(m.SOAP_Header(message=names['h1'], part=names['p2'], use='literal'))
    bop.output = m.Output()
    bop.output.headers.append(m.SOAP_Header(message=names['h1'], part=names['p1'], use='literal'))
    got = wsdl.get_message_header(d, b1, bop, 'input')
    check(len(got) == 2 and got[0] is byname['h2'].parts[0] and got[1] is byname['h1'].parts[1],
          'the parts of the headers are returned in order', got)
    got = wsdl.get_message_header(d, b1, bop, 'output')
    check(len(got) == 1 and got[0] is byname['h1'].parts[0], 'the parts of the headers are returned', got)


def single_part(v):
    m = MODEL[v]
    msg = m.Message(name='m')
    for n in range(3):
        try:
            got = msg.part
        except Exception:
            check(n != 1, 'the part of a message is returned', n)
        else:
            check(n == 1 and got is msg.parts[0], 'a message without exactly one part is refused', (n, got))
        msg.parts.append(m.Part(name='p%d' % n))


def service_methods(count):
    names = [nonempty('op%d' % i) for i in range(count)]
    for i in range(count):
        for j in range(i):
            distinct(names[i], names[j])
    methods = [xsd.Method(operationName=n, soapAction='') for n in names]
    s = Service('urn:s', 'loc', [], methods)
    for n, x in zip(names, methods):
        check(s.get_method(n) is x, 'the operation with exactly that name is returned', s.get_method(n))

    for n, x in zip(names, methods):
        def handler(request, body):
            return n
        check(s.route(n)(handler) is handler, 'a routed function stays the function')
        check(x.function is handler, 'a function is bound to the operation of that name', x.function)
        for y in methods:
            check(y is x or y.function is not handler, 'a function is bound to one operation only')
    other = nonempty('other')
    for n in names:
        distinct(other, n)
    try:
        got = s.get_method(other)
    except Exception:
        check(True, 'refused')
        return
    fail('an operation nobody declares is refused', got)


# ---------------------------------------------------------------- fields
class Base(xsd.ComplexType):
    one = xsd.Element(xsd.String)
    two = xsd.Attribute(xsd.String, tagname='zwei')
    shared = xsd.Element(xsd.String, tagname='s')


class Middle(Base):
    three = xsd.ListElement(xsd.String, 'drei')
    shared = xsd.Element(xsd.Integer)


class Leaf(Middle):
    four = xsd.Element(xsd.String, tagname='vier')
    class_ = xsd.Element(xsd.String, tagname='class')


OWN = {'Base': ('one', 'two', 'shared'), 'Middle': ('one', 'two', 'three', 'shared'),
       'Leaf': ('one', 'two', 'three', 'four', 'class_', 'shared')}
OWNER = {('one', 'Leaf'): Base, ('two', 'Leaf'): Base, ('three', 'Leaf'): Middle, ('shared', 'Leaf'): Middle, ('shared', 'Base'): Base}


def field_lookup(name):
    cls = {'Base': Base, 'Middle': Middle, 'Leaf': Leaf}[name]
    for f in OWN[name]:
        got = cls._find_field(cls._meta.all, f)
        check(got._name == f, 'a field is found by its name', (f, got))
        owner = Middle if f == 'shared' and name != 'Base' else next(
            c for c in (Base, Middle, Leaf) if f in OWN[c.__name__])
        declared = owner.__dict__[f] if f in owner.__dict__ else None
        check(declared is None or got is declared, 'the field is the one declared', (f, got))
        check(cls._get_field_by_name(cls._meta.all, f) is got, 'a field is found by its name', f)
        if got.tagname is not None:
            check(cls._get_field_by_name(cls._meta.all, got.tagname) is got, 'a field is found by its XML name', f)
    other = sym('field', str)
    for f in OWN[name]:
        distinct(other, f)
        g = cls._find_field(cls._meta.all, f)
        if g.tagname is not None:
            distinct(other, g.tagname)
    for find in (cls._find_field, cls._get_field_by_name):
        try:
            got = find(cls._meta.all, other)
        except Exception:
            continue
        fail('a field nobody declares is refused', got)


# ---------------------------------------------------------------- schema documents
def spec_lookup():
    s = xsdspec.Schema(targetNamespace='urn:s')
    names = [nonempty('n%d' % i) for i in range(3)]
    for i in range(3):
        for j in range(i):
            distinct(names[i], names[j])
        s.elements.append(xsdspec.Element(name=names[i]))
    for i in range(3):
        check(s.get_element_by_name(names[i]) is s.elements[i], 'an element of a schema document is found', i)
    other = nonempty('other')
    for n in names:
        distinct(other, n)
    check(s.get_element_by_name(other) is None, 'an element the document does not have is not found')
    t = xsdspec.Schema(targetNamespace='urn:t')
    t.elements.append(xsdspec.Element(name=names[1]))
    t.elements.append(xsdspec.Element(name=other))
    p = local('prefix')
    for n in names:
        assume(':' not in n)
    assume(':' not in other)
    for a, b in ((s, t), (t, s)):
        check(utils.schema_select([a, b], [p + ':' + names[0], names[1]]) is s, 'the schema with all the elements is selected')
        check(utils.schema_select([a, b], [p + ':' + other]) is t, 'the schema with all the elements is selected')
        check(utils.schema_select([a, b], [other, names[0]]) is None, 'no schema is selected unless it has all the elements')
    check(utils.schema_select([s, t], [names[1]]) is s and utils.schema_select([t, s], [names[1]]) is t, 'the first schema is selected')


# ---------------------------------------------------------------- WS-Addressing
def ids():
    return [e for e in events() if e.kind == 'fresh']


def addressing(source, filled):
    dst = wsa.Header()
    if filled:
        dst.Action, dst.MessageID, dst.To, dst.RelatesTo = nonempty('old action'), nonempty('old id'), nonempty('old to'), nonempty('old relates')
    action, relates = dst.Action, dst.RelatesTo
    if source == 'none':
        before = len(ids())
        if flip('source given as None'):
            wsa.fill_header(dst, None)
        else:
            wsa.fill_header(dst)
        check(len(ids()) > before and mentions_any(dst.MessageID, ids()[before:]), 'the message id is fresh', dst.MessageID)
        check(dst.To == ANONYMOUS, 'the reply goes to the anonymous destination', dst.To)
        check(freeze(dst.Action, dst.RelatesTo) == freeze(action, relates), 'nothing else is set without a source', dst.Action)
        return
    src = wsa.Header(Action=nonempty('action'), MessageID=nonempty('id'), To=nonempty('to'))
    if source == 'complete':
        src.ReplyTo = wsa.ReplyTo(Address=nonempty('reply to'))
        src.RelatesTo = nonempty('relates to')
    elif source == 'empty action':
        src.Action = ''
    action, mid = src.Action, src.MessageID
    before = freeze(src)
    n = len(ids())
    wsa.fill_header(dst, src)
    check(freeze(src) == before, 'the source header is left alone')
    check(dst.Action == action + 'Response', 'the action is that of the request with Response appended', dst.Action)
    check(dst.RelatesTo == mid, 'the reply relates to the request', dst.RelatesTo)
    check(dst.To == ANONYMOUS, 'the reply goes to the anonymous destination', dst.To)
    check(len(ids()) > n and mentions_any(dst.MessageID, ids()[n:]), 'the message id is fresh', dst.MessageID)
    first = dst.MessageID
    other = wsa.Header()
    n = len(ids())
    wsa.fill_header(other, src)
    check(len(ids()) > n and mentions_any(other.MessageID, ids()[n:]), 'every header gets its own message id', (first, other.MessageID))
    check(dst.MessageID is first or dst.MessageID == first, 'a header filled before keeps its id')


def mentions_any(value, evs):
    return any(contains_term(value, e.result) for e in evs)


def addressing_service(use, own_in, own_out):
    class Own(xsd.ComplexType):
        x = xsd.Element(xsd.String)
    class Other(xsd.ComplexType):
        y = xsd.Element(xsd.String)
    kw = {}
    if own_in:
        kw['input_header'] = Own
    if own_out:
        kw['output_header'] = Other
    if use is not None:
        kw['use_wsa'] = use
    s = Service('urn:s', 'loc', [], [], **kw)
    for got, own, cls in ((s.input_header, own_in, Own), (s.output_header, own_out, Other)):
        if own:
            check(got is cls, 'a service keeps the headers it declares', got)
        elif use:
            check(got is wsa.Header, 'services with WS-Addressing get the addressing headers', got)
        else:
            check(got is None, 'services without WS-Addressing get no headers', got)


def addressing_names():
    """The header is written and read under the names of WS-Addressing."""
    W = 'http://www.w3.org/2005/08/addressing'
    src = wsa.Header(Action=nonempty('action'), MessageID=nonempty('id'), To=nonempty('to'))
    full = flip('everything set')
    if full:
        src.ReplyTo = wsa.ReplyTo(Address=nonempty('reply to'))
        src.RelatesTo = nonempty('relates to')
    e = tree_of(src.xml('Header', namespace=W, elementFormDefault='qualified'))
    want = ['Action', 'MessageID', 'To'] + (['ReplyTo', 'RelatesTo'] if full else [])
    check([c.tag for c in e] == ['{%s}%s' % (W, n) for n in want], 'the names are those of WS-Addressing', [c.tag for c in e])
    if full:
        check([c.tag for c in e[3]] == ['{%s}Address' % W], 'the names are those of WS-Addressing', [c.tag for c in e[3]])
    back = wsa.Header.parse_xmlelement(e)
    check(back.Action == src.Action and back.MessageID == src.MessageID and back.To == src.To, 'a header is read as written')
    if full:
        check(back.ReplyTo.Address == src.ReplyTo.Address and back.RelatesTo == src.RelatesTo, 'a header is read as written')
    else:
        check(back.ReplyTo is None and back.RelatesTo is None, 'what is not there is not read')
