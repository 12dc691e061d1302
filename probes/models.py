"""C26: the WSDL document classes of the two SOAP bindings; C32 (documents): lookups by name."""
from lxml import etree

from soapfish import namespaces as ns
from soapfish import soap, soap11, soap12, wsdl, wsdl11, wsdl12, xsd, xsdspec

SOAPNS = {'11': 'http://schemas.xmlsoap.org/wsdl/soap/', '12': 'http://schemas.xmlsoap.org/wsdl/soap12/'}
WSDL = 'http://schemas.xmlsoap.org/wsdl/'
MODEL = {'11': wsdl11, '12': wsdl12}

# fields of the extension classes which only WSDL's SOAP 1.2 binding has
ONLY_12 = {'SOAP_Operation': ('soapActionRequired',)}
# the extension elements, by class and XML name: these and no others are in the namespace of the binding
EXTENSIONS = {
    'Input': ('body', 'header'), 'Output': ('body', 'header'), 'Fault': ('fault',), 'Operation': ('operation',),
    'Binding': ('binding',), 'Port': ('address',), 'SOAP_Header': ('headerfault',),
}
CLASSES = ('Types', 'Part', 'Message', 'Import', 'Input', 'Output', 'Fault', 'Operation', 'PortType', 'Binding', 'Port', 'Service',
           'Definitions', 'SOAP_Binding', 'SOAP_Operation', 'SOAP_HeaderFault', 'SOAP_Header', 'SOAP_Body', 'SOAP_Fault', 'SOAP_Address')


def tag(f):
    return f.tagname if f.tagname is not None else f._name


def kind(f):
    if isinstance(f, xsd.ListElement):
        return 'list'
    if isinstance(f, xsd.Attribute):
        return 'attribute'
    if isinstance(f, xsd.Ref):
        return 'group'
    return 'element'


def type_of(f):
    """The type a field declares: a class, or the class of the instance it was given."""
    if f._type is None:
        f._evaluate_type()
    return f._type


def same_values(a, b):
    if a is None or b is None:
        return a is None and b is None
    return list(a) == list(b)


def models_agree(name):
    """One class of the two models, field by field."""
    a, b = getattr(wsdl11, name, None), getattr(wsdl12, name, None)
    check(a is not None and b is not None, 'both models declare %s' % name, (a, b))
    if a is None or b is None:
        return
    anchor(b)
    check(getattr(a, 'ELEMENT_FORM_DEFAULT', None) == getattr(b, 'ELEMENT_FORM_DEFAULT', None), 'both declare the same form default', name)
    check(getattr(a, 'NAMESPACE', None) == getattr(b, 'NAMESPACE', None), 'both declare the same namespace', name)
    check(a.INDICATOR is b.INDICATOR, 'both declare the same indicator', name)
    only = ONLY_12.get(name, ())
    fa, fb = a._meta.all, [f for f in b._meta.all if f._name not in only]
    check([f._name for f in fa] == [f._name for f in fb] or sorted(f._name for f in fa) == sorted(f._name for f in fb),
          'both declare the same fields', ([f._name for f in fa], [f._name for f in fb]))
    ea, eb = [f._name for f in a._meta.fields], [f._name for f in b._meta.fields]
    check(sorted(ea) == sorted(eb), 'both declare the same elements', (ea, eb))
    by_name = {f._name: f for f in fb}
    for f in fa:
        g = by_name.get(f._name)
        if g is None:
            fail('%s.%s is declared in both models' % (name, f._name))
            continue
        where = '%s.%s' % (name, f._name)
        anchor(b, f._name)
        check(tag(f) == tag(g), 'the XML names of a field agree', (where, tag(f), tag(g)))
        check(kind(f) == kind(g), 'the kinds of a field agree', (where, kind(f), kind(g)))
        check(f._minOccurs == g._minOccurs, 'the lower bounds of a field agree', (where, f._minOccurs, g._minOccurs))
        if kind(f) == 'list' and kind(g) == 'list':
            check(f._maxOccurs == g._maxOccurs, 'the upper bounds of a field agree', (where, f._maxOccurs, g._maxOccurs))
        if kind(f) == 'attribute' and kind(g) == 'attribute':
            check(f.use == g.use, 'the uses of an attribute agree', (where, f.use, g.use))
        check(f.nillable == g.nillable, 'the nillability of a field agrees', where)
        check(f.default == g.default if f.default is not None else g.default is None, 'the defaults of a field agree', where)
        ta, tb = type_of(f), type_of(g)
        check(type(ta).__name__ == type(tb).__name__, 'the types of a field agree', (where, ta, tb))
        if isinstance(ta, xsd.String) and isinstance(tb, xsd.String):
            check(same_values(ta.enumeration, tb.enumeration), 'the values of a field agree', (where, ta.enumeration, tb.enumeration))
            check(ta.pattern == tb.pattern if ta.pattern is not None else tb.pattern is None, 'the patterns of a field agree', where)
        extension = tag(f) in EXTENSIONS.get(name, ()) and kind(f) != 'attribute'
        check(f.namespace == (SOAPNS['11'] if extension else g.namespace) or f.namespace is None and g.namespace is None,
              'elements are in the namespace of the model, extension elements in that of the binding', (where, f.namespace))
        if extension:
            check(g.namespace == SOAPNS['12'], 'extension elements are in the namespace of the binding', (where, g.namespace))
        else:
            check(f.namespace not in SOAPNS.values(), 'only extension elements are in the namespace of the binding', (where, f.namespace))
    for module, cls in ((wsdl11, a), (wsdl12, b)):
        for f in cls._meta.all:
            t = type(type_of(f))
            anchor(cls, f._name)
            if t.__name__ in CLASSES:
                check(t is getattr(module, t.__name__), 'the type of every element belongs to its own model', (module.__name__, name, f._name, t))
    for f in b._meta.all:
        if f._name in only:
            anchor(b, f._name)
            check(kind(f) == 'attribute' and f.use == xsd.Use.OPTIONAL, 'fields of SOAP 1.2 only are optional attributes', f._name)


def schemas_agree():
    for m in (wsdl11, wsdl12):
        check(m.SCHEMA.targetNamespace == WSDL, 'the model is that of WSDL', m.SCHEMA.targetNamespace)
        check(m.SCHEMA.elementFormDefault == 'qualified', 'elements of WSDL are qualified')
    a, b = wsdl11.SCHEMA.complexTypes, wsdl12.SCHEMA.complexTypes
    check(sorted(c.__name__ for c in a) == sorted(c.__name__ for c in b), 'both schemas list the same types', (a, b))
    for c in a:
        check(c is getattr(wsdl11, c.__name__), 'the schema lists the types of its own model', c)
        check(c.SCHEMA is wsdl11.SCHEMA, 'a type belongs to the schema of its model', c)
    for c in b:
        check(c is getattr(wsdl12, c.__name__), 'the schema lists the types of its own model', c)
        check(c.SCHEMA is wsdl12.SCHEMA, 'a type belongs to the schema of its model', c)
    names = [n for n in dir(wsdl11) if is_model(getattr(wsdl11, n), 'soapfish.wsdl11')]
    others = [n for n in dir(wsdl12) if is_model(getattr(wsdl12, n), 'soapfish.wsdl12')]
    check(sorted(names) == sorted(others), 'both models declare the same classes', (names, others))
    for n in names:
        check(n in CLASSES, 'all classes of the models are compared', n)


def is_model(x, module):
    return isinstance(x, type) and issubclass(x, xsd.ComplexType) and x.__module__ == module


def model_choice():
    check(wsdl.get_wsdl_classes(SOAPNS['11']) is wsdl11, 'the SOAP 1.1 binding namespace selects its model')
    check(wsdl.get_wsdl_classes(SOAPNS['12']) is wsdl12, 'the SOAP 1.2 binding namespace selects its model')
    check(wsdl.get_wsdl_classes(soap11.BINDING_NAMESPACE) is wsdl11, 'SOAP 1.1 names its model', soap11.BINDING_NAMESPACE)
    check(wsdl.get_wsdl_classes(soap12.BINDING_NAMESPACE) is wsdl12, 'SOAP 1.2 names its model', soap12.BINDING_NAMESPACE)
    check(ns.wsdl_soap == SOAPNS['11'] and ns.wsdl_soap12 == SOAPNS['12'] and ns.wsdl == WSDL, 'the namespaces are those of WSDL 1.1')
    other = sym('namespace', str)
    distinct(other, SOAPNS['11'])
    distinct(other, SOAPNS['12'])
    try:
        got = wsdl.get_wsdl_classes(other)
    except Exception:
        return
    fail('an unknown binding namespace selects no model', got)


def version_of(bindings):
    """The SOAP version of a document, by the bindings it has."""
    root = etree.Element('{%s}definitions' % WSDL, nsmap={'wsdl': WSDL, 's': SOAPNS['12'], 't': SOAPNS['11']})
    want = None
    for b in bindings:
        if b == 'comment':
            root.append(etree.Comment(SOAPNS['12']))
            continue
        if b == 'port':
            s = etree.SubElement(root, '{%s}service' % WSDL)
            etree.SubElement(etree.SubElement(s, '{%s}port' % WSDL), '{%s}address' % SOAPNS['12'])
            continue
        e = etree.SubElement(root, '{%s}binding' % WSDL)
        if b in SOAPNS:
            etree.SubElement(e, '{%s}binding' % SOAPNS[b])
            want = want or b
            want = '12' if b == '12' else want
        else:
            etree.SubElement(e, '{urn:http}binding')
    got = soap.SOAPVersion.get_version_from_xml(root)
    check(got is (soap12 if want == '12' else soap11), 'the version of a document is that of its binding', got)


# ---------------------------------------------------------------- documents
def document(v):
    """A WSDL document with one of everything, and the texts it holds."""
    S = SOAPNS[v]
    texts = {}

    def text(n):
        if n not in texts:
            texts[n] = nonempty(n)
            return texts[n]
        return texts[n]

    def sub(parent, local, space=WSDL, **attrs):
        e = etree.SubElement(parent, "{%s}%s" % (space, local))
        for k, val in attrs.items():
            e.set(k, val)
        return e

    root = etree.Element('{%s}definitions' % WSDL)
    root.set('targetNamespace', text('tns'))
    root.set('name', text('name'))
    sub(root, 'documentation').text = text('doc')
    sub(root, 'import', namespace=text('import'), location=text('location'))
    m = sub(root, 'message', name=text('message'))
    sub(m, 'part', name=text('part'), element=text('element'))
    sub(m, 'part', name=text('part2'), type=text('type'))
    pt = sub(root, 'portType', name=text('portType'))
    op = sub(pt, 'operation', name=text('operation'))
    sub(op, 'input', message=text('in'))
    sub(op, 'output', message=text('out'), name=text('outname'))
    sub(op, 'fault', message=text('flt'), name=text('fltname'))
    b = sub(root, 'binding', name=text('binding'), type=text('btype'))
    sub(b, 'binding', S, style='document', transport=text('transport'))
    bop = sub(b, 'operation', name=text('operation'))
    sub(bop, 'operation', S, soapAction=text('action'), style='rpc')
    i = sub(bop, 'input')
    h = sub(i, 'header', S, message=text('hm'), part=text('hp'), use='literal')
    sub(h, 'headerfault', S, message=text('hfm'), part=text('hfp'), use='literal')
    sub(i, 'body', S, use='literal', namespace=text('bns'))
    o = sub(bop, 'output')
    sub(o, 'body', S, use='encoded', encodingStyle=text('enc'))
    sub(o, 'header', S, message=text('om'), part=text('op'), use='literal')
    f = sub(bop, 'fault', name=text('fltname'))
    sub(f, 'fault', S, name=text('fltname'), use='literal')
    s = sub(root, 'service', name=text('service'))
    p = sub(s, 'port', name=text('port'), binding=text('pbinding'))
    sub(p, 'address', S, location=text('address'))
    return root, texts


def read_right(d, t, m, v):
    check(type(d) is m.Definitions, 'the document is read with the chosen model', d)
    check(d.targetNamespace == t['tns'] and d.name == t['name'] and d.documentation == t['doc'], 'definitions are read', d)
    check([(i.namespace, i.location) for i in d.imports] == [(t['import'], t['location'])], 'imports are read', d.imports)
    check(len(d.messages) == 1 and len(d.portTypes) == 1 and len(d.bindings) == 1 and len(d.services) == 1, 'all parts are read')
    msg, pt, b, s = d.messages[0], d.portTypes[0], d.bindings[0], d.services[0]
    check(msg.name == t['message'], 'messages are read', msg)
    check([(p.name, p.element, p.type) for p in msg.parts] == [(t['part'], t['element'], None), (t['part2'], None, t['type'])],
          'parts are read', msg.parts)
    op = pt.operations[0]
    check(pt.name == t['portType'] and op.name == t['operation'], 'port types are read', pt)
    check(op.input.message == t['in'] and op.output.message == t['out'] and op.output.name == t['outname'], 'operations are read', op)
    check(op.input.body is None and op.output.body is None, 'operations of port types have no body', op)
    check([(x.name, x.message) for x in op.faults] == [(t['fltname'], t['flt'])], 'faults are read', op.faults)
    check(b.name == t['binding'] and b.type == t['btype'], 'bindings are read', b)
    check(b.binding.style == 'document' and b.binding.transport == t['transport'], 'the SOAP binding is read', b.binding)
    bop = b.operations[0]
    check(bop.name == t['operation'] and bop.operation.soapAction == t['action'] and bop.operation.style == 'rpc',
          'the SOAP operation is read', bop)
    i, o = bop.input, bop.output
    check(i.body.use == 'literal' and i.body.namespace == t['bns'], 'the input body is read', i.body)
    check([(h.message, h.part, h.use) for h in i.headers] == [(t['hm'], t['hp'], 'literal')], 'headers are read', i.headers)
    check([(h.message, h.part) for h in i.headers[0].headerfaults] == [(t['hfm'], t['hfp'])], 'header faults are read', i.headers)
    check(o.body.use == 'encoded' and o.body.encodingStyle == t['enc'], 'the output body is read', o.body)
    check([(h.message, h.part, h.use) for h in o.headers] == [(t['om'], t['op'], 'literal')], 'headers are read', o.headers)
    check(bop.faults[0].fault.name == t['fltname'] and bop.faults[0].fault.use == 'literal', 'SOAP faults are read', bop.faults)
    p = s.ports[0]
    check(s.name == t['service'] and p.name == t['port'] and p.binding == t['pbinding'] and p.address.location == t['address'],
          'services are read', s)


def read_document(v):
    root, t = document(v)
    m = MODEL[v]
    read_right(m.Definitions.parse_xmlelement(root), t, m, v)


def write_document(v):
    """What the model writes has the names and namespaces it reads, and reads back the same."""
    root, t = document(v)
    m = MODEL[v]
    d = m.Definitions.parse_xmlelement(root)
    out = etree.Element('{%s}definitions' % WSDL)
    d.render(out, d, namespace=WSDL, elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
    extension = ('body', 'header', 'headerfault', 'address')
    for e in out.iter():
        q = etree.QName(e)
        parent = e.getparent()
        soapish = q.localname in extension or parent is not None and (
            q.localname == 'binding' and etree.QName(parent).localname == 'binding'
            or q.localname == 'operation' and etree.QName(parent).localname == 'operation'
            or q.localname == 'fault' and etree.QName(parent).localname == 'fault')
        check(q.namespace == (SOAPNS[v] if soapish else WSDL), 'elements are written in their namespace', e.tag)
    read_right(m.Definitions.parse_xmlelement(out), t, m, v)
    foreign = '12' if v == '11' else '11'
    check(len(list(out.iter('{%s}*' % SOAPNS[foreign]))) == 0, 'nothing of the other binding is written')
