from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of the code generators over documents in which one attribute at a time holds an unknown text: every attribute '
    'of every kind of element the library reads, names included. The text of the generated program is a term; the position of each unknown '
    'text in it is found with the tokenizer of the language. Obligations: each is in a string literal it can not leave (made by repr(), or '
    'without quotes, backslashes and line ends on that trace), in a comment it can not end, or an identifier of word characters; no text '
    'ever becomes code. Where no code is generated for a text, there is nothing to check on that trace.')
ASSUMPTIONS = ['the rest of the document are constants of each kind']
RULE = 'texts of documents stay data in generated code'
XSD = 'http://www.w3.org/2001/XMLSchema'
WSDL = 'http://schemas.xmlsoap.org/wsdl/'
SOAP = {'11': 'http://schemas.xmlsoap.org/wsdl/soap/', '12': 'http://schemas.xmlsoap.org/wsdl/soap12/'}


def x(tag, *children, **attrs):
    return ('{%s}%s' % (XSD, tag), tuple(sorted((k.rstrip('_'), v) for k, v in attrs.items())), children)


def w(tag, *children, **attrs):
    return ('{%s}%s' % (WSDL, tag), tuple(sorted((k.rstrip('_'), v) for k, v in attrs.items())), children)


def s(v, tag, **attrs):
    return ('{%s}%s' % (SOAP[v], tag), tuple(sorted(attrs.items())), ())


def restricted(base, *facets, **named):
    return x('simpleType', x('restriction', *(x(f, value=v) for f, v in facets), base=base), **named)


FACETS = (('enumeration', 'a'), ('enumeration', 'b'), ('pattern', '[ab]'), ('length', '1'), ('minLength', '1'), ('maxLength', '1'), ('whiteSpace', 'collapse'))
BOUNDS = (('minInclusive', '1'), ('maxInclusive', '2'), ('minExclusive', '0'), ('maxExclusive', '3'), ('totalDigits', '1'), ('fractionDigits', '0'))


def schema_parts():
    return {
        'namespaces': (x('import', schemaLocation='b.xsd', namespace='urn:b'), x('include', schemaLocation='c.xsd'), x('import', namespace='urn:d'),
                       x('import', schemaLocation='http://host/e.xsd', namespace='urn:e'),
                       x('complexType', x('sequence', x('element', name='a', type='xs:string')), name='item'),),
        'simple types': (restricted('xs:string', *FACETS, name='text'), restricted('xs:decimal', *BOUNDS, name='number'), restricted('t:text', ('maxLength', '3'), name='derived')),
        'types in place': (x('complexType', x('sequence', x('element', restricted('xs:string', *FACETS), name='a'), x('element', restricted('xs:decimal', *BOUNDS), name='b')),
                             x('attribute', restricted('xs:string', ('pattern', 'x'), ('maxLength', '3')), name='c'), name='item'),
                           x('element', restricted('xs:string', ('pattern', 'x'), ('enumeration', 'b')), name='e')),
        'attribute groups': (x('attributeGroup', x('attribute', name='a', type='xs:string', use='optional'), name='shared'),
                             x('complexType', x('sequence', x('element', name='f', type='xs:string')), x('attribute', name='b', type='xs:string', use='required'), x('attributeGroup', ref='t:shared'), name='item')),
        'attribute references': (x('complexType', x('attribute', ref='t:b'), name='item'),),
        'groups': (x('group', x('sequence', x('element', name='a', type='xs:string', minOccurs='0')), name='pair'),),
        'complex types': (x('complexType', x('sequence', x('element', name='a', type='t:other', minOccurs='0', maxOccurs='2', nillable='true'), x('element', ref='t:other')), name='item'),
                          x('complexType', x('choice', x('element', name='b', type='xs:string')), name='other')),
        'extensions': (x('complexType', x('sequence', x('element', name='a', type='xs:string')), name='base'),
                       x('complexType', x('complexContent', x('extension', x('sequence', x('element', name='b', type='xs:string')), base='t:base')), name='item')),
        'restrictions': (x('complexType', x('all', x('element', name='a', type='xs:string')), name='base'),
                         x('complexType', x('complexContent', x('restriction', x('all', x('element', name='b', type='xs:string')), base='t:base')), name='item')),
        'elements': (x('complexType', x('sequence', x('element', name='a', type='xs:string')), name='item'),
                     x('element', name='e', type='t:item', nillable='true', substitutionGroup='t:f'), x('element', x('complexType', x('sequence', x('element', name='a', type='xs:string'))), name='f')),
    }


def document(children):
    return x('schema', *children, nsmap=(('xs', XSD), ('t', 'urn:t')), targetNamespace='urn:t', elementFormDefault='qualified')


def service(v):
    types = w('types', x('schema', x('element', x('complexType', x('sequence', x('element', name='a', type='xs:string'))), name='in'),
                         x('element', x('complexType', x('sequence', x('element', name='a', type='xs:string'))), name='out'), x('element', name='head', type='xs:string'), targetNamespace='urn:t'))
    return w('definitions', types, w('import', location='other.wsdl'), w('message', w('part', name='body', element='t:in'), name='opIn'), w('message', w('part', name='body', element='t:out'), name='opOut'),
             w('message', w('part', name='h', element='t:head'), name='headers'),
             w('portType', w('operation', w('input', message='t:opIn'), w('output', message='t:opOut'), name='op'), name='type'),
             w('binding', s(v, 'binding', style='document', transport='http://schemas.xmlsoap.org/soap/http'),
               w('operation', s(v, 'operation', soapAction='act', style='document'), w('input', s(v, 'header', message='t:headers', part='h', use='literal'), s(v, 'body', use='literal')),
                 w('output', s(v, 'body', use='literal')), name='op'), name='bind', type='t:type'),
             w('service', w('port', s(v, 'address', location='http://host/path'), name='port', binding='t:bind'), name='serv'),
             nsmap=(('wsdl', WSDL), ('soap', SOAP[v]), ('xs', XSD), ('t', 'urn:t')), targetNamespace='urn:t', name='defs')


def typed(v):
    """Messages with types instead of elements."""
    types = w('types', x('schema', x('complexType', x('sequence', x('element', name='a', type='xs:string')), name='thing'), targetNamespace='urn:t'))
    return w('definitions', types, w('message', w('part', name='body', type='t:thing'), name='opIn'), w('message', w('part', name='body', type='t:thing'), name='opOut'),
             w('portType', w('operation', w('input', message='t:opIn'), w('output', message='t:opOut'), name='op'), name='type'),
             w('binding', s(v, 'binding', style='document', transport='http://schemas.xmlsoap.org/soap/http'),
               w('operation', s(v, 'operation', soapAction='act'), w('input', s(v, 'body', use='literal')), w('output', s(v, 'body', use='literal')), name='op'), name='bind', type='t:type'),
             w('service', w('port', s(v, 'address', location='http://host/path'), name='port', binding='t:bind'), name='serv'),
             nsmap=(('wsdl', WSDL), ('soap', SOAP[v]), ('xs', XSD), ('t', 'urn:t')), targetNamespace='urn:t', name='defs')


def attributes(node, path=()):
    tag, attrs, children = node
    for n, v in attrs:
        if n != 'nsmap':
            yield path, n, tag.split('}')[1]
    for i, c in enumerate(children):
        yield from attributes(c, path + (i,))


VALUES = {('schema', 'targetNamespace'), ('element', 'substitutionGroup'), ('operation', 'soapAction'), ('part', 'name'), ('port', 'name'), ('definitions', 'targetNamespace')}
VALUES |= {(f, 'value') for f in ('enumeration', 'pattern', 'whiteSpace', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive')}


def is_value(label, path, tag, n):
    """Whether the code holds the text as such, wherever there is code."""
    if tag == 'operation' and n == 'name':
        return path[0] == 4 or path[0] == 5
    return (tag, n) in VALUES and path[:2] != (3, 0) or (tag, n, label) == ('element', 'name', 'elements') and len(path) == 1


def one_by_one(label, doc, kind, target, skip=()):
    for path, n, tag in attributes(doc):
        if (tag, n) not in skip:
            where = '.'.join(map(str, path))
            yield Scenario('declared', 'stays_data', (doc, ((path, n),), kind, target, is_value(label, path, tag, n)), label=f'stays_data({label}, {tag}[{where}] {n})', rule=RULE)


def scenarios(tier):
    for n, parts in schema_parts().items():
        yield from one_by_one(n, document(parts), 'xsd', None)
    for v in ('11', '12'):
        for target in ('client', 'server') if tier != 'quick' else ('client',) if v == '11' else ('server',):
            yield from one_by_one(f'WSDL {v} {target}', service(v), 'wsdl', target)
            yield from one_by_one(f'typed WSDL {v} {target}', typed(v), 'wsdl', target)
