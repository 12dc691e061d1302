"""C13-C18: dispatching of requests."""
from lxml import etree

from soapfish import namespaces as ns
from soapfish import soap11, soap12, wsa, xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.soap import Service
from soapfish.soap_dispatch import SOAPDispatcher

VERSIONS = {'soap11': soap11, 'soap12': soap12}
ENV = {'soap11': 'http://schemas.xmlsoap.org/soap/envelope/', 'soap12': 'http://www.w3.org/2003/05/soap-envelope'}
CONTENT_TYPE = {'soap11': 'text/xml', 'soap12': 'application/soap+xml'}
CLIENT = {'soap11': (None, 'Client'), 'soap12': (ENV['soap12'], 'Sender')}
SERVER = {'soap11': (None, 'Server'), 'soap12': (ENV['soap12'], 'Receiver')}
TNS = 'urn:probe:types'
WSA = 'http://www.w3.org/2005/08/addressing'
XSI_NIL = '{http://www.w3.org/2001/XMLSchema-instance}nil'


class Req(xsd.ComplexType):
    value = xsd.Element(xsd.String, minOccurs=0)
    num = xsd.Element(xsd.Integer, minOccurs=0)
    amount = xsd.Element(xsd.Decimal, minOccurs=0)
    when = xsd.Element(xsd.Date, minOccurs=0)
    flag = xsd.Element(xsd.Boolean, minOccurs=0)
    at = xsd.Element(xsd.DateTime, minOccurs=0)
    clock = xsd.Element(xsd.Time, minOccurs=0)
    count = xsd.Element(xsd.PositiveInteger, minOccurs=0)
    ratio = xsd.Element(xsd.Double, minOccurs=0)


class Other(xsd.ComplexType):
    value = xsd.Element(xsd.String, minOccurs=0)


class Resp(xsd.ComplexType):
    result = xsd.Element(xsd.String, minOccurs=0)


class InHead(xsd.ComplexType):
    token = xsd.Element(xsd.String, minOccurs=0)
    amount = xsd.Element(xsd.Decimal, minOccurs=0)
    count = xsd.Element(xsd.Integer, minOccurs=0)
    at = xsd.Element(xsd.DateTime, minOccurs=0)
    day = xsd.Element(xsd.Date, minOccurs=0)
    ratio = xsd.Element(xsd.Double, minOccurs=0)


class SvcHead(xsd.ComplexType):
    token = xsd.Element(xsd.String, minOccurs=0)


class OutHead(xsd.ComplexType):
    ticket = xsd.Element(xsd.String, minOccurs=0)
    stamp = xsd.Element(xsd.String, minOccurs=0, namespace='urn:probe:stamps')


def build(version, strict=True, own=False, svc=False, **kw):
    service = make_service(version, answer, one=InHead if own else None, svc_header=SvcHead if svc else None)
    return SOAPDispatcher(service, strict_soap_header=strict, **kw)


def busy(dispatcher, version):
    """The dispatcher after it has served requests of every kind."""
    xml_hooks(valid=lambda schema, doc: True)
    for action, tag in (('"urn:first"', 'first'), (None, 'second'), ('"urn:none"', 'first'), (None, 'lonely')):
        head = part('Head')
        etree.SubElement(head, 'token').text = 'earlier'
        e = request_element(tag, [('value', 'earlier')])
        dispatcher.dispatch(SOAPRequest(environ(version, action), etree.tostring(envelope(version, [head], [e]))))
    for body in ([], [etree.Comment('c')]):
        dispatcher.dispatch(SOAPRequest(environ(version, None), etree.tostring(envelope(version, None, body))))
    for method, query in (('GET', 'wsdl'), ('GET', 'singleWsdl'), ('GET', 'xsd'), ('GET', 'xsd=a.xsd'), ('GET', 'xsd=none'), ('PUT', 'wsdl')):
        env = {'REQUEST_METHOD': method, 'QUERY_STRING': query, 'HTTP_HOST': 'earlier', 'wsgi.url_scheme': 'ftp'}
        dispatcher.dispatch(SOAPRequest(env, b''))
    return dispatcher


def build_busy(version, *args):
    return busy(build(version, *args), version)


def build_answering_busy(version, *args):
    return busy(build_answering(version, *args), version)


def make_service(version, handler=None, svc_header=None, one=None, two=None, output='firstResponse', **kw):
    schema = xsd.Schema(
        TNS,
        elementFormDefault=xsd.ElementFormDefault.UNQUALIFIED,
        complexTypes=(Req, Other, Resp, InHead, SvcHead, OutHead),
        elements={
            'lonely': xsd.Element(Other),
            'orphan': xsd.Element(Other, substitutionGroup='nowhere'),
            'first': xsd.Element(Req),
            'second': xsd.Element(Other),
            'derived': xsd.Element(Other, substitutionGroup='sns:second'),
            'firstResponse': xsd.Element(Resp),
            'secondResponse': xsd.Element(Resp),
            'token': xsd.Element(xsd.String),
        },
    )
    def function_of(n):
        def function(request, body):
            emit('ran', n)
            return handler(request, body)
        return None if handler is None else function
    methods = [
        xsd.Method(operationName='Second', soapAction='urn:second', input='second', output='secondResponse',
                   function=function_of('Second'), input_header=two),
        xsd.Method(operationName='First', soapAction='urn:first', input='first', output=output,
                   function=function_of('First'), input_header=one),
        xsd.Method(operationName='Third', soapAction='', input=Other, output=Resp, function=function_of('Third')),
        xsd.Method(operationName='Fourth', soapAction='urn:fourth', input=Other, output=Resp, function=function_of('Fourth')),
    ]
    return Service('urn:probe:service', '${scheme}://${host}/ws', [schema], methods, version=VERSIONS[version], name='Probe',
                   input_header=svc_header, **kw)


def answer(request, body):
    emit('handler', request, body)
    return SOAPResponse(Resp(result=sym('result', str)))


def part(tag, namespace=TNS, text=None):
    e = etree.Element('{%s}%s' % (namespace, tag))
    e.text = text
    return e


def request_element(tag='first', fields=(), namespace=TNS):
    e = etree.Element('{%s}%s' % (namespace, tag))
    for n, v in fields:
        c = etree.SubElement(e, n)
        c.text = v
    return e


def envelope(version, header, body):
    """header/body: None (absent) or a list of nodes; 'nil' for xsi:nil."""
    env = ENV[version]
    root = etree.Element('{%s}Envelope' % env)
    for tag, nodes in (('Header', header), ('Body', body)):
        if nodes is None:
            continue
        e = etree.SubElement(root, '{%s}%s' % (env, tag))
        if nodes == 'nil':
            e.set(XSI_NIL, 'true')
        elif nodes == 'text':
            e.text = sym('stray text', str)
        else:
            for n in nodes:
                e.append(n)
    return root


def environ(version, action, method='POST'):
    env = {'REQUEST_METHOD': method}
    if version == 'soap11':
        if action is not None:
            env['SOAPACTION'] = action
    else:
        env['CONTENT_TYPE'] = CONTENT_TYPE[version] + ('' if action is None else '; action=' + action)
    return env


def nodes(shape, parts):
    if shape == 'absent':
        return None
    if shape in ('nil', 'text'):
        return shape
    if shape == 'empty':
        return []
    if shape == 'comment':
        return [etree.Comment('c')]
    if shape == 'comment+':
        return [etree.Comment('c'), etree.ProcessingInstruction('p', 'x')] + parts
    if shape == '+comment':
        return parts + [etree.Comment('c')]
    return parts


# ---------------------------------------------------------------- reading answers
def fault(version, response):
    """(code namespace, code, message) of the fault a response carries, or None."""
    tree = tree_of(response.http_content)
    if tree is None:
        return None
    env = ENV[version]
    if tree.tag != '{%s}Envelope' % env:
        return None
    bodies = [c for c in tree if c.tag == '{%s}Body' % env]
    if len(bodies) != 1 or len(bodies[0]) != 1 or bodies[0][0].tag != '{%s}Fault' % env:
        return None
    f = bodies[0][0]
    if version == 'soap11':
        code, text = f.find('faultcode'), f.find('faultstring')
        if code is None or text is None:
            return None
        return (None, code.text, text.text)
    code, text = f.find('{%s}Code/{%s}Value' % (env, env)), f.find('{%s}Reason/{%s}Text' % (env, env))
    if code is None or text is None:
        return None
    prefix, name = code.text.split(':')
    return (nsmap_of(code).get(prefix), name, text.text)


def fault_code(version, response):
    """The text of the fault code."""
    env = ENV[version]
    f = tree_of(response.http_content)[-1][0]
    code = f.find('faultcode') if version == 'soap11' else f.find('{%s}Code/{%s}Value' % (env, env))
    return code.text


def fault_message(version, response):
    env = ENV[version]
    f = tree_of(response.http_content)[-1][0]
    code = f.find('faultstring') if version == 'soap11' else f.find('{%s}Reason/{%s}Text' % (env, env))
    return code.text


def is_fault(version, response):
    env = ENV[version]
    tree = tree_of(response.http_content)
    return tree is not None and tree.tag == '{%s}Envelope' % env and len(tree) > 0 \
        and tree[-1].tag == '{%s}Body' % env and [c.tag for c in tree[-1]] == ['{%s}Fault' % env]


def expect_client_fault(version, response, why):
    check(response.http_status_code == 500, why + ': status is 500')
    check(response.http_headers.get('Content-Type') == CONTENT_TYPE[version], why + ': content type of the SOAP version')
    f = fault(version, response)
    check(f is not None, why + ': the answer is an envelope with a fault')
    if f is None:
        note(tree_of(response.http_content))
    if f is not None:
        check((f[0], f[1]) == CLIENT[version], why + ': the fault blames the client', f)
    check(len(events('probe', 'handler')) == 0, why + ': no handler runs')


def dispatch(dispatcher, request, what):
    try:
        return dispatcher.dispatch(request)
    except Exception as e:
        fail(what + ': no exception leaves the dispatcher', e)
        stop()


# ---------------------------------------------------------------- C13 / C14
def received(dispatcher, version, strict, header_shape, header_parts, body_shape, by_action, headers):
    own, svc = headers
    service = dispatcher.service
    parts = []
    for p in header_parts:
        if p == 'wsa':
            parts.append(part('Action', WSA, sym('wsa action', str)))
        elif p == 'token':
            t = part('Head')
            c = etree.SubElement(t, 'token')
            c.text = sym('token text', str)
            assume(c.text != '')
            parts.append(t)
        else:
            parts.append(part('token', TNS, sym('token', str)))
    body = request_element('first', [('value', sym('text', str))])
    root = envelope(version, nodes(header_shape, parts), nodes(body_shape, [body]))
    content = etree.tostring(root)
    request = SOAPRequest(environ(version, '"urn:first"' if by_action else None), content)
    before = len(events('validate'))
    response = dispatch(dispatcher, request, 'a request')

    validated = events('validate')[before:]
    handled = events('probe', 'handler')
    if body_shape in ('absent', 'empty', 'comment', 'nil', 'text'):
        expect_client_fault(version, response, 'no SOAP body content')
        return
    expected = [body]
    if header_shape in ('present', 'comment+', '+comment'):
        expected += parts
    refused = False
    for v in validated:
        if not v.result and (strict or v.args[0] is wsa.XML_SCHEMA or same_tree(v.args[1], body)):
            refused = True
    if refused:
        expect_client_fault(version, response, 'failed validation')
        return
    # every part was validated, against the right schema, before the handler ran
    check(len(handled) == 1, 'a valid request is handled once', len(handled))
    if len(handled) != 1:
        return
    h = handled[0]
    for e in expected:
        found = [v for v in validated if same_tree(v.args[1], e)]
        check(len(found) > 0, 'header parts and body are validated', e.tag)
        for v in found:
            check(v.n < h.n, 'validation precedes the handler')
            check((v.args[0] is wsa.XML_SCHEMA) == (e.tag[:len(WSA) + 1] == '{' + WSA), 'addressing parts are validated as such')
    req, obj = h.args
    check(req is request, 'the handler gets the request')
    check(req.dispatcher is dispatcher, 'the request carries its dispatcher')
    check(req.method is service.methods[1], 'the request carries the selected method')
    check([e.args[0] for e in events('probe', 'ran')][-1:] == ['First'], 'the function of the selected method runs')
    check(req.soap_body is obj, 'the handler gets the parsed body')
    check(isinstance(obj, Req), 'the body is parsed as the declared input')
    check(any([same_tree(v.args[1], obj._xmlelement) and v.args[1] is obj._xmlelement for v in validated]),
          'the handler gets the element that was validated')
    if header_shape == 'absent' or header_shape == 'nil' or not (own or svc):
        check(req.soap_header is None, 'no header is reported')
    else:
        head = req.soap_header
        check(type(head) is (InHead if own else SvcHead), 'the header is parsed as declared by method, else service')


def typed_values(dispatcher, version, field):
    """Values that are schema-valid but that the Python type may be unable to hold."""
    xml_hooks(valid=lambda schema, doc: True)
    text = sym('text', str)
    body = request_element('first', [(field, text)])
    request = SOAPRequest(environ(version, None), etree.tostring(envelope(version, None, [body])))
    response = dispatch(dispatcher, request, 'a schema-valid request')
    if len(events('probe', 'handler')) == 0:
        expect_client_fault(version, response, 'a value that can not be read')
    else:
        check(len(events('probe', 'handler')) == 1, 'a valid request is handled once')


def lenient(dispatcher, version, field):
    """Headers the schema refuses are read all the same when headers are not strict."""
    head = part('Head')
    etree.SubElement(head, field).text = sym('text', str)
    xml_hooks(valid=lambda schema, doc: not same_tree(doc, head))
    body = request_element('first')
    content = etree.tostring(envelope(version, [part('other'), head, part('other')], [body]))
    response = dispatch(dispatcher, SOAPRequest(environ(version, None), content), 'a request with a header the schema refuses')
    if len(events('probe', 'handler')) == 0:
        expect_client_fault(version, response, 'a header that can not be read')
    else:
        check(len(events('probe', 'handler')) == 1, 'a valid request is handled once')


def again(dispatcher, version, how):
    """A request that has been dispatched before is validated and parsed like any other."""
    verdict = []

    def valid(schema, doc):
        verdict.append(flip('valid'))
        return verdict[-1]
    xml_hooks(valid=lambda schema, doc: True)
    first = request_element('first', [('value', 'earlier')])
    request = SOAPRequest(environ(version, None), etree.tostring(envelope(version, None, [first])))
    if how == 'handled':
        dispatch(dispatcher, request, 'a request')
    elif how == 'by another':
        dispatch(build(version, True, True), request, 'a request')
    elif how == 'touched':
        request.soap_body = Req(value='earlier')
        request.soap_header = InHead(token='earlier')
        request.method = dispatcher.service.methods[3]
    xml_hooks(valid=valid)
    body = request_element('second', [('value', nonempty('text'))])
    request.http_content = etree.tostring(envelope(version, None, [body]))
    before, earlier = len(events('validate')), len(events('probe', 'handler'))
    response = dispatch(dispatcher, request, 'a request dispatched again')
    handled = events('probe', 'handler')[earlier:]
    check([same_tree(v.args[1], body) for v in events('validate')[before:]] == [True], 'header parts and body are validated')
    if not all(verdict):
        check(is_fault(version, response), 'a refused request gets a fault')
        check(len(handled) == 0, 'no handler runs for a refused request')
        return
    check(len(handled) == 1, 'a valid request is handled once', len(handled))
    if len(handled) == 1:
        req, obj = handled[0].args
        check(req is request and req.dispatcher is dispatcher, 'the request carries its dispatcher')
        check(req.method is dispatcher.service.methods[0], 'the request carries the selected method')
        check(isinstance(obj, Other) and identical(obj.value, body[0].text), 'the handler gets the parsed body', obj)
        check(req.soap_body is obj, 'the request carries the parsed body')
        check(req.soap_header is None, 'no header is reported')


def malformed(dispatcher, version):

    def broken(text, parser):
        raise etree.XMLSyntaxError('not well-formed', 1, 1, 1)
    xml_hooks(fromstring=broken)
    request = SOAPRequest(environ(version, anyof(None, '"urn:first"', sym('action', str))), sym('content', bytes))
    response = dispatch(dispatcher, request, 'malformed content')
    expect_client_fault(version, response, 'malformed content')


def foreign(dispatcher, version):
    """Well-formed documents that are no SOAP envelopes."""
    xml_hooks(valid=lambda schema, doc: flip('valid'))
    root = etree.Element(name('root'))
    if flip('has a child'):
        c = etree.SubElement(root, name('child'))
        distinct(c.tag, 'Body')
        distinct(c.tag, 'Header')
        c.text = sym('text', str)
    request = SOAPRequest(environ(version, anyof(None, '"urn:first"')), etree.tostring(root))
    response = dispatch(dispatcher, request, 'a document that is no envelope')
    expect_client_fault(version, response, 'a document that is no envelope')


def noise(dispatcher, version, what):
    """A request body with a fault, nil children, attributes or further elements never makes an exception escape."""
    env = ENV[version]
    e = request_element('first', [('value', sym('text', str))])
    more = []
    if what == 'fault first':
        f = etree.Element('{%s}Fault' % env)
        c = etree.SubElement(f, anyof('faultcode', '{%s}Code' % env, '{%s}Reason' % env))
        if flip('nil'):
            c.set(XSI_NIL, 'true')
        body = [f]
    elif what == 'nil field':
        e[0].set(XSI_NIL, sym('nil', str))
        body = [e]
    elif what == 'nil root':
        e.set(XSI_NIL, sym('nil', str))
        body = [e]
    elif what == 'two':
        body = [e, request_element('second')]
    elif what == 'message':
        body = [part('message', env, sym('m', str))]
    else:
        body = [e]
    root = envelope(version, None, body)
    if what == 'two bodies':
        b = etree.SubElement(root, '{%s}Body' % env)
        b.append(request_element('second'))
    elif what == 'two headers':
        etree.SubElement(root, '{%s}Header' % env)
        etree.SubElement(root, '{%s}Header' % env)
    elif what == 'attributes':
        root.set(name('attr'), sym('av', str))
        root[0].set('{%s}encodingStyle' % env, sym('es', str))
    request = SOAPRequest(environ(version, anyof(None, '"urn:first"')), etree.tostring(root))
    response = dispatch(dispatcher, request, 'an odd envelope')
    handled = events('probe', 'handler')
    if len(handled) == 0:
        expect_client_fault(version, response, 'an odd envelope')
    else:
        check(len(handled) == 1, 'a request is handled once')
        req, obj = handled[0].args
        check(any([v.args[1] is obj._xmlelement and v.result for v in events('validate')]),
              'the handler gets the element that was validated')
        check(all([v.n < handled[0].n for v in events('validate')]), 'validation precedes the handler')


# ---------------------------------------------------------------- C16
def routing(dispatcher, version, root_tag, quoted, known):
    service = dispatcher.service
    xml_hooks(valid=lambda schema, doc: True)
    second, first, third, fourth = service.methods
    if known == 'none':
        action = anyof(None, '') if version == 'soap11' else None
        sent = action
    else:
        action = wild('action') if known == 'any' else known
        if known == 'any':
            assume(action != '')
            assume('"' not in action)
            assume(';' not in action)
            assume(action.strip() == action)
            assume('\\' not in action)
        sent = '"' + action + '"' if quoted else action
    if root_tag == 'unknown':
        tag = name('root')
        for t in ('lonely', 'orphan', 'first', 'second', 'derived', 'firstResponse', 'secondResponse', 'token'):
            distinct(tag, t)
    else:
        tag = root_tag
    namespace = anyof(TNS, 'urn:other') if root_tag == 'first' else TNS
    e = etree.Element('{%s}%s' % (namespace, tag))
    request = SOAPRequest(environ(version, sent), etree.tostring(envelope(version, None, [e])))
    response = dispatch(dispatcher, request, 'a request')
    if action:
        if action == 'urn:second':
            want = second
        elif action == 'urn:first':
            want = first
        elif action == 'urn:fourth':
            want = fourth
        else:
            want = None
    else:
        want = {'first': first, 'second': second, 'derived': second}.get(root_tag)
    handled = events('probe', 'handler')
    if want is None:
        expect_client_fault(version, response, 'no operation of that name')
    else:
        check(len(handled) == 1, 'the named operation handles the request', action, tag)
        if len(handled) == 1:
            check(handled[0].args[0].method is want, 'the operation that was named handles the request', action, tag)
            ran = [r.args[0] for r in events('probe', 'ran') if r.n < handled[0].n]
            check(ran[-1:] == [want.operationName], 'the operation that was named handles the request', action, tag, ran)
            if want is fourth:
                check(type(handled[0].args[1]) is Other and handled[0].args[0].soap_body is handled[0].args[1], 'a class given as input reads the body')


def foreign_content_type(dispatcher):
    """SOAP 1.2 names the action in its own content type only."""
    service = dispatcher.service
    xml_hooks(valid=lambda schema, doc: True)
    ct = anyof('text/xml; action="urn:second"', 'application/soap+xml; charset=utf-8; action="urn:first"',
               'application/soap+xml;action=urn:first', None)
    env = {'REQUEST_METHOD': 'POST'}
    if ct is not None:
        env['CONTENT_TYPE'] = ct
    request = SOAPRequest(env, etree.tostring(envelope('soap12', None, [request_element('first')])))
    dispatch(dispatcher, request, 'a request')
    handled = events('probe', 'handler')
    check(len(handled) == 1 and handled[0].args[0].method is service.methods[1], 'the operation that was named handles the request')



# ---------------------------------------------------------------- C15
def result_of(version, kind, result, header):
    """What a handler or middleware may return; (value or None, error to raise or None, status, extra headers)."""
    if kind == 'object':
        return result, None
    if kind == 'response':
        return SOAPResponse(result, soap_header=header), None
    if kind == 'status':
        return SOAPResponse(result, soap_header=header, http_status_code=sym('status', int)), None
    if kind == 'headers':
        return SOAPResponse(result, soap_header=header, http_headers={'X-Probe': sym('x', str)}), None
    if kind == 'own type':
        return SOAPResponse(result, soap_header=header, http_headers={'Content-Type': sym('content type', str)}), None
    code = anyof(VERSIONS[version].Code.CLIENT, VERSIONS[version].Code.SERVER, sym('code', str))
    error = SOAPError(code, sym('message', str), anyof(None, sym('actor', str)))
    assume(error.code != '')
    assume(error.message != '')
    if kind == 'error':
        return error, None
    if kind == 'raised':
        return None, error
    if kind == 'wrapped':
        return SOAPResponse(error, soap_header=header), None
    if kind == 'wrapped status':
        return SOAPResponse(error, soap_header=header, http_status_code=sym('status', int)), None
    raise TypeError(kind)


def build_answering(version, kind, with_header, by, output='named'):
    """A dispatcher whose handler (or outermost middleware) answers with the given kind of result."""
    def give(request):
        result = Resp(result=nonempty('result'))
        header = None
        if with_header:
            header = OutHead(ticket=nonempty('ticket'), stamp=nonempty('stamp'))
        value, error = result_of(version, kind, result, header)
        emit('answer', value if error is None else error)
        if error is not None:
            raise error
        return value

    def handler(request, body):
        emit('handler', request, body)
        return give(request)

    def middleware(request, next_call):
        if by == 'middleware':
            return give(request)
        return next_call(request)
    service = make_service(version, handler, output='firstResponse' if output == 'named' else Resp)
    return SOAPDispatcher(service, middlewares=[middleware])


def answered(dispatcher, version, kind, with_header, by, output='named'):
    xml_hooks(valid=lambda schema, doc: True)
    body = request_element('first')
    request = SOAPRequest(environ(version, None), etree.tostring(envelope(version, None, [body])))
    response = dispatch(dispatcher, request, 'an answered request')
    given = events('probe', 'answer')
    check(len(given) == 1, 'the request is answered once')
    if len(given) != 1:
        return
    given = given[0].args[0]
    check(isinstance(response, SOAPResponse), 'the dispatcher returns a response')
    check(response.http_headers.get('Content-Type') == CONTENT_TYPE[version], 'content type of the SOAP version')
    tree = tree_of(response.http_content)
    check(tree is not None, 'the content is a document')
    if tree is None:
        return
    env = ENV[version]
    check(tree.tag == '{%s}Envelope' % env, 'the content is an envelope of the version')
    tags = [c.tag for c in tree]
    wrapped = isinstance(given, SOAPResponse)
    wants_header = with_header and wrapped
    check(tags == (['{%s}Header' % env] if wants_header else []) + ['{%s}Body' % env], 'header when given, and one body', tags)
    if wants_header and len(tree) == 2:
        head = tree[0]
        check(len(head) == 2, 'the header carries what was supplied')
        if len(head) == 2:
            check(etree.QName(head[0].tag).localname == 'ticket' and identical(head[0].text, given.soap_header.ticket),
                  'the header carries what was supplied', head[0].tag)
            check(head[1].tag == '{urn:probe:stamps}stamp' and identical(head[1].text, given.soap_header.stamp),
                  'the header carries what was supplied', head[1].tag)
    inner = given.soap_body if wrapped else given
    if isinstance(inner, SOAPError):
        f = is_fault(version, response)
        check(f, 'an error becomes a fault')
        if f:
            check(identical(fault_message(version, response), inner.message), 'the fault carries the message of the error')
            check(fault_code(version, response) == inner.code, 'the fault carries the code of the error')
        check(response.http_status_code == 500, 'a fault has status 500', response.http_status_code)
        return
    check(len(tree[-1]) == 1, 'the body carries one element')
    if len(tree[-1]) == 1:
        e = tree[-1][0]
        want = 'firstResponse' if output == 'named' and by == 'handler' else 'resp'
        check(e.tag == '{%s}%s' % (TNS, want), 'the body carries the declared output element', e.tag)
        check([c.tag for c in e] == ['result'] and identical(e[0].text, inner.result), 'the body carries the result')
    if wrapped and kind == 'status':
        check(identical(response.http_status_code, given.http_status_code), 'the handler chooses the status')
    else:
        check(response.http_status_code == 200, 'successful answers have status 200', response.http_status_code)
    if kind == 'headers':
        check(identical(response.http_headers.get('X-Probe'), given.http_headers.get('X-Probe')), 'headers of the handler are kept')
    if by == 'middleware':
        check(len(events('probe', 'handler')) == 0, 'a middleware that answers keeps the handler from running')


def build_raising(version):
    def handler(request, body):
        raise SOAPError(anyof(VERSIONS[version].Code.CLIENT, VERSIONS[version].Code.SERVER), wild('message'))
    return SOAPDispatcher(make_service(version, handler))


def unprintable(dispatcher, version):
    """Messages with characters XML can not hold still make a fault."""
    xml_hooks(valid=lambda schema, doc: True)
    request = SOAPRequest(environ(version, None), etree.tostring(envelope(version, None, [request_element('first')])))
    response = dispatch(dispatcher, request, 'an error with any message')
    check(is_fault(version, response), 'an error becomes a fault')
    check(response.http_status_code == 500, 'a fault has status 500')


def header_namespace(dispatcher, version):
    """Header blocks belong to the schema of the header type, as body elements do."""
    xml_hooks(valid=lambda schema, doc: True)
    request = SOAPRequest(environ(version, None), etree.tostring(envelope(version, None, [request_element('first')])))
    response = dispatch(dispatcher, request, 'an answered request')
    tree = tree_of(response.http_content)
    check(tree[0][0].tag in ('ticket', '{%s}ticket' % TNS), 'header blocks are in the namespace of their schema', tree[0][0].tag)


