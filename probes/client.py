"""C22, C23: the two SOAP versions, and the client stub."""
from lxml import etree

from probe.dispatch import (CONTENT_TYPE, ENV, OutHead, Other, Req, Resp, TNS, VERSIONS, answer, envelope, make_service,
                            request_element)
from soapfish import soap11, soap12, xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.django_ import DjangoEnvironWrapper
from soapfish.soap import SOAPVersion, Stub

USED = ('ENVELOPE_NAMESPACE', 'BINDING_NAMESPACE', 'CONTENT_TYPE', 'NAME', 'determine_soap_action', 'build_http_request_headers',
        'get_error_response', 'parse_fault_message', 'Header', 'Code', 'Fault', 'Body', 'Envelope', 'SCHEMA')


def interface(version):
    soap = VERSIONS[version]
    for n in USED:
        check(hasattr(soap, n), 'both versions provide what dispatcher and client use', n)
    for n in ('CLIENT', 'SERVER'):
        check(hasattr(soap.Code, n), 'both versions provide the fault codes', n)
    check(soap.ENVELOPE_NAMESPACE == ENV[version], 'the envelope namespace is that of the version', soap.ENVELOPE_NAMESPACE)
    binding = {'soap11': 'http://schemas.xmlsoap.org/wsdl/soap/', 'soap12': 'http://schemas.xmlsoap.org/wsdl/soap12/'}[version]
    check(soap.BINDING_NAMESPACE == binding, 'the binding namespace is that of the version', soap.BINDING_NAMESPACE)
    check(soap.CONTENT_TYPE == CONTENT_TYPE[version], 'the content type is that of the version', soap.CONTENT_TYPE)
    check(soap.SCHEMA.targetNamespace == ENV[version], 'the schema of the envelope is that of the version')
    check(soap.Envelope.SCHEMA is soap.SCHEMA and soap.Body.SCHEMA is soap.SCHEMA and soap.Fault.SCHEMA is soap.SCHEMA,
          'the envelope types belong to the schema of their version')


def versions_by_namespace(which):
    if which == 'unknown':
        n = sym('namespace', str)
        for v in VERSIONS.values():
            distinct(n, v.ENVELOPE_NAMESPACE)
            distinct(n, v.BINDING_NAMESPACE)
        try:
            SOAPVersion.get_version(n)
        except ValueError:
            check(True, 'unknown namespaces are refused')
            return
        fail('unknown namespaces are refused')
        return
    for n in (VERSIONS[which].ENVELOPE_NAMESPACE, VERSIONS[which].BINDING_NAMESPACE):
        check(SOAPVersion.get_version(n) is VERSIONS[which], 'a namespace names its version', n)


def layout(version, content, header):
    """Header (when given) and body of the envelope in a document."""
    root = tree_of(content)
    check(root is not None and root.tag == '{%s}Envelope' % ENV[version], 'the document is an envelope of the version', root)
    tags = [c.tag for c in root]
    check(tags == (['{%s}Header' % ENV[version]] if header else []) + ['{%s}Body' % ENV[version]], 'header if given, then body', tags)
    check(len(root[-1]) == 1, 'the body has one child', [c.tag for c in root[-1]])
    return root


def some_header(kind):
    if kind == 'none':
        return None
    h = OutHead(stamp=nonempty('stamp'))
    if kind == 'full':
        h.ticket = nonempty('ticket')
    return h


def same_header(got, want):
    return type(got) is type(want) and got.ticket == want.ticket and got.stamp == want.stamp


def fault_round_trip(version, code, actor, header, positional):
    soap = VERSIONS[version]
    make_service(version)           # gives the types their schema
    code = {'client': soap.Code.CLIENT, 'server': soap.Code.SERVER, 'any': nonempty('code')}[code]
    message = nonempty('message')
    who = nonempty('actor') if actor else None
    head = some_header(header)
    if positional:
        content = soap.get_error_response(code, message, who, head)
    else:
        content = soap.get_error_response(code, message, actor=who, header=head)
    root = layout(version, content, head is not None)
    f = root[-1][0]
    check(f.tag == '{%s}Fault' % ENV[version], 'a fault is the only child of the body', f.tag)
    if version == 'soap12':
        at = f.find('{%s}Code/{%s}Value' % (ENV[version], ENV[version]))
        check(at is not None, 'the code of a fault')
        if at is not None and code in (soap.Code.CLIENT, soap.Code.SERVER):
            prefix, name = at.text.split(':')
            check(nsmap_of(at).get(prefix) == ENV[version], 'the prefix of a fault code stands for the envelope namespace', at.text)
            check(name == ('Sender' if code == soap.Code.CLIENT else 'Receiver'), 'the fault codes of SOAP 1.2', at.text)
        reason = f.find('{%s}Reason/{%s}Text' % (ENV[version], ENV[version]))
        check(reason is not None and reason.text == message, 'the reason of a fault', reason)
        check(reason is not None and reason.get('{http://www.w3.org/XML/1998/namespace}lang') is not None, 'the reason names its language')
        role = f.find('{%s}Role' % ENV[version])
        check((role is not None) == actor and (not actor or role.text == who), 'the actor of a fault', role)
    else:
        tags = [c.tag for c in f]
        check(tags == ['faultcode', 'faultstring'] + (['faultactor'] if actor else []), 'code, message and actor of a fault, unqualified', tags)
        check(f[0].text == (code if not hasattr(code, 'value') else code.value), 'the code of a fault', f[0].text)
        if code is soap.Code.CLIENT or code is soap.Code.SERVER:
            check(f[0].text == ('Client' if code is soap.Code.CLIENT else 'Server'), 'the fault codes of SOAP 1.1', f[0].text)
        check(f[1].text == message, 'the message of a fault')
        check(not actor or f[2].text == who, 'the actor of a fault')
    back = soap.Envelope.parsexml(content)
    got = soap.parse_fault_message(back.Body.Fault)
    check(len(got) == 3, 'a fault is read as code, message and actor')
    check(got[0] == code, 'the code is read back', got)
    check(got[1] == message, 'the message is read back', got)
    check(got[2] is None if who is None else got[2] == who, 'the actor is read back', got)
    if head is not None:
        check(same_header(back.Header.parse_as(OutHead), head), 'the header is read back', back.Header.parse_as(OutHead))
    else:
        check(back.Header is None, 'no header is read when none was written', back.Header)


def response_round_trip(version, header, body):
    soap = VERSIONS[version]
    make_service(version)           # gives the types their schema
    obj = Resp(result=nonempty('result')) if body == 'full' else Resp()
    head = some_header(header)
    content = soap.Envelope.response('theTag', obj, header=head) if head is not None or flip('header given as None') \
        else soap.Envelope.response('theTag', obj)
    root = layout(version, content, head is not None)
    check(root[-1][0].tag == '{%s}theTag' % TNS, 'the object is rendered under the tag, in the namespace of its schema', root[-1][0].tag)
    back = soap.Envelope.parsexml(content)
    check(back.Body.Fault is None, 'a response is no fault')
    got = back.Body.parse_as(Resp)
    check(type(got) is Resp and (got.result is None if body != 'full' else got.result == obj.result), 'the body is read back', got)
    check(back.Body.content() is not None and back.Body.content().tag == '{%s}theTag' % TNS, 'the content of the body is the element')
    if head is not None:
        check(same_header(back.Header.parse_as(OutHead), head), 'the header is read back', back.Header.parse_as(OutHead))
    else:
        check(back.Header is None, 'no header is read when none was written', back.Header)


def environment(headers, style):
    """What a server makes of the HTTP headers."""
    env = {}
    for k, v in headers.items():
        n = k.upper().replace('-', '_')
        if n in ('CONTENT_TYPE', 'CONTENT_LENGTH'):
            env[n] = v
        else:
            env[n if style == 'plain' else 'HTTP_' + n] = v
    return DjangoEnvironWrapper(env) if style == 'django' else env


def action_agreement(version, style, which):
    soap = VERSIONS[version]
    action = {'uri': 'http://example.net/ops/Get?x=1', 'urn': 'urn:x:y', 'word': 'echo', 'spaced': 'do it', 'semicolon': 'urn:a;b=c',
              'empty': ''}[which] if which != 'any' else sym('action', str)
    if which == 'any':
        assume(action != '' and '"' not in action and '\\' not in action)
    headers = soap.build_http_request_headers(action)
    check(headers['Content-Type'].split(';')[0] == CONTENT_TYPE[version], 'the content type announced is that of the version', headers)
    got = soap.determine_soap_action(SOAPRequest(environment(headers, style), b''))
    if which == 'empty':
        check(not got, 'an empty action is no action', got)
    else:
        check(got == action, 'the action announced is the action read', got)
    # content type parameters and quotes of other clients
    if which in ('uri', 'urn', 'word'):
        if version == 'soap11':
            env = environment({'Content-Type': 'text/xml; charset=utf-8', 'SOAPAction': anyof('"%s"', '%s') % action}, style)
        else:
            form = anyof('; charset=utf-8; action="%s"', ';action="%s";charset=utf-8', '; action=%s', ' ; Action="%s"', ';  action="%s"')
            env = environment({'Content-Type': CONTENT_TYPE[version] + form % action}, style)
        got = soap.determine_soap_action(SOAPRequest(env, b''))
        check(got == action, 'the action is read whatever else the headers say', got)


def no_action(version):
    soap = VERSIONS[version]
    other = 'soap12' if version == 'soap11' else 'soap11'
    env = anyof({}, {'CONTENT_TYPE': CONTENT_TYPE[version]}, {'CONTENT_TYPE': CONTENT_TYPE[version] + '; charset=utf-8'},
                {'CONTENT_TYPE': CONTENT_TYPE[other]}, {'CONTENT_TYPE': ''})
    check(not soap.determine_soap_action(SOAPRequest(env, b'')), 'no action is read when none was announced')


# ---------------------------------------------------------------- C23
class Reply:
    def __init__(self, content):
        self.content = content
        self.text = content
        self.headers = {'Content-Type': 'text/xml'}
        self.status_code = 200
        self.ok = True

    def raise_for_status(self):
        pass


def posts():
    return events('probe', 'sent') + [e for e in events('io') if e.name.startswith('requests.')]


def argument(e, n, name):
    if name in e.args[2]:
        return e.args[2][name]
    return e.args[1][n] if len(e.args[1]) > n else None


def replying(content):
    def post(*a, **k):
        emit('sent', 'POST', a, k)
        return Reply(content)

    def request(method, *a, **k):
        emit('sent', method.upper(), a, k)
        return Reply(content)
    hook('requests.post', post)
    hook('requests.request', request)


class Branded(Stub):
    SCHEME = 'https'
    HOST = 'branded:8443'


class Bound(Stub):
    SERVICE = None


def stub_location(kind):
    service = make_service('soap11')
    if kind == 'default':
        s, want = Stub(service=service), 'http://www.example.net/ws'
    elif kind == 'branded':
        s, want = Branded(service=service), 'https://branded:8443/ws'
    elif kind == 'text':
        want = sym('location', str)
        assume(want != '')
        s = Stub(service=service, location=want)
    elif kind == 'function':
        want = sym('location', str)

        def where(template, context):
            emit('where', template, context)
            return want
        s = Branded(service=service, location=where)
        calls = events('probe', 'where')
        check(len(calls) == 1 and calls[0].args[0] == '${scheme}://${host}/ws', 'a location function gets the location of the service')
        check(len(calls) == 1 and calls[0].args[1] == {'scheme': 'https', 'host': 'branded:8443'}, 'a location function gets host and scheme')
    elif kind == 'bound':
        Bound.SERVICE = service
        s, want = Bound(), 'http://www.example.net/ws'
        check(s.service is service, 'a stub class names its service')
    elif kind == 'rebound':
        Bound.SERVICE = make_service('soap12')
        s, want = Bound(service=service), 'http://www.example.net/ws'
        check(s.service is service, 'the service given goes before that of the class')
    else:
        try:
            Stub(service=service, location=anyof(5, ['x'], {'a': 'b'}, b'http://x'))
        except TypeError:
            check(True, 'a location is a text or a function')
            return
        fail('a location is a text or a function')
        return
    check(s.location == want, 'the location of the stub', s.location)


def stub_service(version, declared, kinds):
    service = make_service(version, None)
    if declared:
        for m in service.methods:
            m.output_header = OutHead
    return service


def reply_of(version, kind):
    soap = VERSIONS[version]
    if kind == 'fault' or kind == 'fault with actor':
        code, message = nonempty('code'), nonempty('message')
        actor = nonempty('actor') if kind == 'fault with actor' else None
        return soap.get_error_response(code, message, actor=actor), (code, message, actor), None
    head = OutHead(stamp=nonempty('reply stamp'), ticket=nonempty('reply ticket')) if kind == 'with header' else None
    body = Resp(result=nonempty('reply result'))
    return soap.Envelope.response('firstResponse', body, header=head), body, head


def called(service, version, operation, kind, declared, credentials, with_header, earlier=()):
    """One call and its reply."""
    user, password = None, None
    if credentials == 'both':
        user, password = nonempty('user'), nonempty('password')
    elif credentials == 'user':
        user = nonempty('user')
    stub = Stub(user, password, service=service, location='http://host/ws')
    for op, k in earlier:
        replying(reply_of(version, k)[0])
        try:
            stub.call(op, Req(value='earlier') if op == 'First' else Other(value='earlier'), header=OutHead(ticket='earlier'))
        except SOAPError:
            pass
    skip = len(posts())
    content, want, want_head = reply_of(version, kind)
    replying(content)
    value = nonempty('value')
    if operation == 'First':
        parameter, tag, action = Req(value=value, num=5), 'first', 'urn:first'
    elif operation == 'Second':
        parameter, tag, action = Other(value=value), 'second', 'urn:second'
    else:
        parameter, tag, action = Other(value=value), 'other', ''
    head = OutHead(ticket=nonempty('ticket'), stamp=nonempty('stamp')) if with_header else None
    before = freeze(parameter)
    error = result = None
    try:
        result = stub.call(operation, parameter, header=head) if with_header else stub.call(operation, parameter)
    except SOAPError as e:
        error = e
    sent = posts()[skip:]
    check(len(sent) == 1, 'a call sends one request', [e.name for e in sent])
    if len(sent) == 1:
        sent_right(sent[0], version, user, password, tag, action, parameter, value, head)
    check(freeze(parameter) == before, 'a call does not change its parameter')
    if kind.startswith('fault'):
        check(error is not None, 'a fault reply is raised as SOAPError', result)
        if error is not None:
            check(error.code == want[0], 'the error carries the code of the fault', error.code)
            check(error.message == want[1], 'the error carries the message of the fault', error.message)
            check(error.actor is None if want[2] is None else error.actor == want[2], 'the error carries the actor of the fault', error.actor)
        return
    check(error is None, 'a reply that is no fault is returned', error)
    if error is not None:
        return
    check(isinstance(result, SOAPResponse), 'a call returns a response', result)
    body = result.soap_body
    check(type(body) is Resp, 'the reply is parsed as the declared output', body)
    check(type(body) is Resp and body.result == want.result, 'the reply is what the server sent', body)
    if declared and want_head is not None:
        check(same_header(result.soap_header, want_head), 'the header of the reply is parsed as declared', result.soap_header)
    else:
        check(result.soap_header is None, 'no header is reported', result.soap_header)


def sent_right(e, version, user, password, tag, action, parameter, value, head):
    check(e.name == 'sent' and e.args[0] == 'POST', 'a call is sent by POST', e.name)
    check(argument(e, 0, 'url') == 'http://host/ws', 'a call is sent to the location', argument(e, 0, 'url'))
    auth = argument(e, 99, 'auth')
    if user is None:
        check(auth is None, 'no credentials are sent unless given', auth)
    else:
        check(auth is not None and len(auth) == 2 and auth[0] == user and (auth[1] is None if password is None else auth[1] == password),
              'the credentials given are sent', auth)
    headers = argument(e, 99, 'headers')
    check(headers is not None, 'the headers of the SOAP version are sent')
    if version == 'soap11':
        check(headers['Content-Type'].split(';')[0] == 'text/xml', 'the content type of the SOAP version is sent', headers)
        check(headers['SOAPAction'].strip('"') == action, 'the action of the operation is sent', headers)
    else:
        check(headers['Content-Type'].split(';')[0] == 'application/soap+xml', 'the content type of the SOAP version is sent', headers)
        check(headers['Content-Type'].split('action=')[1].strip('"') == action, 'the action of the operation is sent', headers)
    data = argument(e, 1, 'data')
    root = layout(version, data, head is not None)
    el = root[-1][0]
    check(el.tag == '{%s}%s' % (TNS, tag), 'the parameter is rendered under the input element', el.tag)
    texts = [c.text for c in el]
    check(texts == ([value, '5'] if type(parameter) is Req else [value]), 'the parameter is rendered completely', texts)
    if head is not None:
        check([c.text for c in root[0]] == [head.ticket, head.stamp], 'the header given is rendered', [c.text for c in root[0]])


def unknown_operation(service, version):
    stub = Stub(service=service, location='http://host/ws')
    name = sym('operation', str)
    for m in service.methods:
        distinct(name, m.operationName)
    try:
        stub.call(name, Req())
    except Exception:
        check(len(posts()) == 0, 'nothing is sent for an unknown operation')
        return
    fail('an unknown operation is refused')


def foreign_reply(service, version, kind):
    """Replies as other servers write them."""
    stub = Stub(service=service, location='http://host/ws')
    env = ENV[version]
    text = nonempty('text')
    if kind == 'comments':
        body = etree.Element('{%s}firstResponse' % TNS)
        etree.SubElement(body, 'result').text = text
        root = envelope(version, [etree.Comment('c')], [etree.Comment('c'), body, etree.Comment('d')])
    elif kind == 'empty header':
        body = etree.Element('{%s}firstResponse' % TNS)
        etree.SubElement(body, 'result').text = text
        root = envelope(version, [], [body])
    else:
        f = etree.Element('{%s}Fault' % env)
        if version == 'soap11':
            etree.SubElement(f, 'faultcode').text = 'S:Server'
            etree.SubElement(f, 'faultstring').text = text
            etree.SubElement(etree.SubElement(f, 'detail'), 'more').text = 'x'
        else:
            c = etree.SubElement(f, '{%s}Code' % env)
            etree.SubElement(c, '{%s}Value' % env).text = 'S:Receiver'
            etree.SubElement(etree.SubElement(c, '{%s}Subcode' % env), '{%s}Value' % env).text = 'm:Timeout'
            r = etree.SubElement(f, '{%s}Reason' % env)
            etree.SubElement(r, '{%s}Text' % env).text = text
            etree.SubElement(etree.SubElement(f, '{%s}Detail' % env), 'more').text = 'x'
        root = envelope(version, None, [etree.Comment('c'), f] if flip('comment before the fault') else [f])
    replying(etree.tostring(root))
    try:
        r = stub.call('First', Req())
    except SOAPError as e:
        check(kind == 'fault', 'only faults are raised', e)
        check(e.code == ('S:Server' if version == 'soap11' else 'S:Receiver') and e.message == text and e.actor is None,
              'the error carries the fault', e)
        return
    check(kind != 'fault', 'a fault is raised')
    check(type(r.soap_body) is Resp and r.soap_body.result == text, 'the reply is what the server sent', r.soap_body)
