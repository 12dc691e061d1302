"""C21: serving requests stays away from network and files."""
from lxml import etree

from probe.dispatch import TNS, answer, dispatch, envelope, environ, make_service, part, request_element
from probe.http import WSDL, XSDS, linked_service
from soapfish import py2xsd, xsd
from soapfish.core import SOAPRequest
from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication


def untouched(what):
    check(len(events('io')) == 0, what + ': no file is opened and no connection made', [e.name for e in events('io')])
    check(all(e.name != 'resolve_filename' and e.name != 'resolve_file' for e in events('resolve')),
          what + ': references are not resolved to files')
    for e in events('parser'):
        p = e.args[0]
        check(getattr(p, 'no_network', True) is True, what + ': parsers stay away from the network', p)


def harmless(parser):
    """A parser request bytes may be given to."""
    return parser is None or getattr(parser, 'resolve_entities', 'internal') in ('internal', False) \
        and not getattr(parser, 'load_dtd', False) and not getattr(parser, 'dtd_validation', False) \
        and not getattr(parser, 'attribute_defaults', False) and not getattr(parser, 'huge_tree', False)


def make(version, kind, given):
    service = linked_service(version) if kind == 'linked' else make_service(version, answer)
    if given:
        return SOAPDispatcher(service, wsdl=WSDL, xsds=dict(XSDS))
    return SOAPDispatcher(service)


def building(version, kind, given):
    make(version, kind, given)
    untouched('building a dispatcher')


def served(d, version, route):
    env = environ(version, anyof(None, '"urn:first"', '"' + sym('action', str) + '"') if route == 'soap' else None)
    if route == 'soap':
        shape = anyof('unknown', 'known', 'schema location', 'header')
        if shape == 'unknown':
            def broken(text, parser):
                raise etree.XMLSyntaxError('broken', 1, 1, 1)
            xml_hooks(fromstring=broken)
            content = sym('content', bytes)
        else:
            body = request_element('first', [('value', sym('text', str))])
            if shape == 'schema location':
                body.set('{http://www.w3.org/2001/XMLSchema-instance}schemaLocation', sym('hint', str))
                body.set('{http://www.w3.org/2001/XMLSchema-instance}noNamespaceSchemaLocation', sym('hint2', str))
            heads = None
            if shape == 'header':
                heads = [part('Action', 'http://www.w3.org/2005/08/addressing', sym('wsa', str)), part('token', TNS, sym('token', str))]
            content = etree.tostring(envelope(version, heads, [body]))
    else:
        content = b''
        env['REQUEST_METHOD'] = 'GET'
        env['QUERY_STRING'] = sym('query', str) if route == 'get' else anyof('wsdl', 'singleWsdl', 'xsd', 'xsd=near.xsd', 'xsd=../../etc/passwd')
        env['HTTP_HOST'] = sym('host', str)
        assume(env['HTTP_HOST'] != '')
    before = len(events('fromstring'))
    d.dispatch(SOAPRequest(env, content))
    untouched('serving a request')
    for e in events('fromstring')[before:]:
        check(harmless(e.args[1]), 'requests are parsed without external entities and DTDs', e.args[1])


def parsed_model(with_schema):
    """parsexml of a complex type, with and without a schema."""
    class Doc(xsd.ComplexType):
        a = xsd.Element(xsd.String, minOccurs=0)
    schema = xsd.Schema('urn:doc', complexTypes=[Doc], elements={'doc': xsd.Element(Doc)})
    root = etree.Element('{urn:doc}doc')
    xml_hooks(valid=lambda schema, doc: True)
    before = len(events('fromstring'))
    data = etree.tostring(root)
    Doc.parsexml(data, schema=schema) if with_schema else Doc.parsexml(data)
    untouched('reading a document')
    for e in events('fromstring')[before:]:
        check(harmless(e.args[1]), 'documents are parsed without external entities and DTDs', e.args[1])


class Far(xsd.ComplexType):
    far = xsd.Element(xsd.String)


class Near(xsd.ComplexType):
    near = xsd.Element(xsd.String)


def schemas_of(shape):
    far = xsd.Schema('urn:probe:far', location='far.xsd', complexTypes=(Far,), elements={'far': xsd.Element(Far)})
    near = xsd.Schema('urn:probe:near', location='http://host/near.xsd', imports=[far], complexTypes=(Near,), elements={'near': xsd.Element(Near)})
    part = xsd.Schema('urn:probe:top', location='sub/part.xsd', imports=[far] if shape == 'diamond' else [])
    top = xsd.Schema('urn:probe:top', imports=[near], includes=[part])
    if shape == 'cycle':
        far.imports = [near]
    known = {'far.xsd': far, 'http://host/near.xsd': near, 'sub/part.xsd': part}
    if shape == 'single':
        top, known = xsd.Schema('urn:probe:top', imports=[far]), {'far.xsd': far}
    if shape == 'none':
        top, known = xsd.Schema('urn:probe:top'), {}
    return top, known


def resolving(shape, which):
    """What the schema validator makes of references, known and unknown."""
    top, known = schemas_of(shape)
    py2xsd.schema_validator([top])
    untouched('building a validator')
    docs = [e.args[0] for e in events('schema')]
    check(len(docs) > 0, 'a schema is built')
    parsers = [e.args[1] for e in events('fromstring') if any([e.result is x for x in docs])]
    for p in parsers:
        resolvers = [] if p is None else [e.args[1] for e in events('resolver') if e.args[0] is p.resolvers]
        check(len(resolvers) > 0, 'references of the schema are resolved by a resolver of our own', p)
        if which == 'known':
            for url, schema in known.items():
                resolves(resolvers, url, schema)
        else:
            url = sym('url', str)
            for k in known:
                distinct(url, k)
            refused = False
            for r in resolvers:
                before = len(events('resolve'))
                try:
                    got = r.resolve(url, sym('id', str), opaque('context'))
                except Exception:
                    refused = True
                    break
                check(got is None and len(events('resolve')) == before, 'nothing is resolved for other locations', got)
            check(refused, 'other locations are refused, not left to the default resolver')
    untouched('resolving references')


def resolves(resolvers, url, schema):
    for r in resolvers:
        before = len(events('resolve'))
        try:
            got = r.resolve(url, None, opaque('context'))
        except Exception as e:
            fail('a reference to a schema given is resolved', url, e)
            return
        if got is None:
            continue
        made = [e for e in events('resolve')[before:] if e.result is got]
        check(len(made) == 1 and made[0].name == 'resolve_string', 'a reference is resolved to the schema given', url)
        tree = tree_of(made[0].args[0]) if made else None
        check(tree is not None and same_tree(tree, py2xsd.generate_xsd(schema)), 'a reference is resolved to the schema given', url, tree)
        return
    fail('a reference to a schema given is resolved', url)
