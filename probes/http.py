"""C17-C20: HTTP level - routing, hooks, middlewares, framework adapters."""
from urllib.parse import parse_qs

from lxml import etree

from probe.dispatch import (CONTENT_TYPE, busy, Other, Req, Resp, TNS, VERSIONS, answer, dispatch, envelope, environ,
                             is_fault, fault_code, fault_message, make_service, request_element)
from soapfish import middlewares as mw
from soapfish import xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.soap import Service
from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication

XSDS = {'xsd': b'<default/>', 'a.xsd': b'<a/>', 'b c.xsd': b'<b/>', 'xsd=d': b'<d/>'}
WSDL = b'<definitions at="${scheme}://${host}/x"/>'


class Far(xsd.ComplexType):
    far = xsd.Element(xsd.String)


class Lone(xsd.ComplexType):
    lone = xsd.Element(xsd.String)


class Near(xsd.ComplexType):
    near = xsd.Element(xsd.String)


# ---------------------------------------------------------------- C17
def linked_service(version):
    far = xsd.Schema('urn:probe:far', location='far.xsd', complexTypes=(Far,), elements={'far': xsd.Element(Far)})
    lone = xsd.Schema('urn:probe:lone', complexTypes=(Lone,), elements={'lone': xsd.Element(Lone)})
    near = xsd.Schema('urn:probe:near', location='near.xsd', imports=[far, lone], complexTypes=(Near,),
                      elements={'near': xsd.Element(Near)})
    part = xsd.Schema(TNS, location='part.xsd', elements={'other': xsd.Element(Other)}, complexTypes=(Other,))
    schema = xsd.Schema(TNS, imports=[near], includes=[part], complexTypes=(Req, Resp),
                        elements={'first': xsd.Element(Req), 'firstResponse': xsd.Element(Resp)})
    methods = [xsd.Method(operationName='First', soapAction='urn:first', input='first', output='firstResponse', function=answer)]
    return Service('urn:probe:service', '${scheme}://${host}/ws', [schema], methods, version=VERSIONS[version], name='Probe')


def build_static(version, given=True, **kw):
    if given:
        return SOAPDispatcher(linked_service(version), wsdl=WSDL, xsds=dict(XSDS), **kw)
    return SOAPDispatcher(linked_service(version), **kw)


def build_static_busy(version, given=True):
    return busy(build_static(version, given), version)


def build_hooked_busy(version, active, mode):
    return busy(build_hooked(version, active, mode), version)


def build_stacked_busy(version, n, behaviours):
    return busy(build_stacked(version, n, behaviours), version)


def soap_content(version):
    return etree.tostring(envelope(version, None, [request_element('first')]))


def http_request(version, method, query, extra=()):
    env = environ(version, None)
    if method == 'absent':
        del env['REQUEST_METHOD']
    else:
        env['REQUEST_METHOD'] = method
    if query != 'absent':
        env['QUERY_STRING'] = query
    for k, v in extra:
        env[k] = v
    return SOAPRequest(env, soap_content(version))


def status_line(response):
    try:
        return response.http_status_text
    except Exception as e:
        fail('the status line can be written', e)
        stop()


def expect_status(response, code, reason):
    check(response.http_status_code == code, 'status is %d' % code, response.http_status_code)
    check(status_line(response) == '%d %s' % (code, reason), 'the status line is the status of the response', status_line(response))


def expected_route(method, query):
    q = {} if query == 'absent' else parse_qs(query, keep_blank_values=True)
    if method == 'GET':
        if 'wsdl' in q or 'singleWsdl' in q:
            return 'wsdl', None
        if 'xsd' in q:
            return 'xsd', q['xsd'][0]
        return 'bad', None
    return ('soap' if method == 'POST' else 'bad'), None


def routed(dispatcher, version, method, query):
    """Every method and query string against the table of routes."""
    xml_hooks(valid=lambda schema, doc: True)
    if method == 'any':
        method = sym('method', str)
        distinct(method, 'GET')
        distinct(method, 'POST')
    if query == 'any':
        query = sym('query', str)
    host = sym('host', str)
    assume(host != '')
    request = http_request(version, method, query, (('HTTP_HOST', host), ('wsgi.url_scheme', 'https')))
    response = dispatch(dispatcher, request, 'a request')
    want, which = expected_route(method, query)
    handled = len(events('probe', 'handler'))
    if want == 'soap':
        check(handled == 1, 'a POST is handled as SOAP')
        expect_status(response, 200, 'OK')
        return
    check(handled == 0, 'no handler runs for other requests')
    if want == 'wsdl':
        expect_status(response, 200, 'OK')
        check(response.http_content == ('<definitions at="https://' + host + '/x"/>').encode(), 'the WSDL names host and scheme',
              response.http_content)
        check(response.http_headers.get('Content-Type') == 'text/xml', 'documents are text/xml')
    elif want == 'xsd':
        name = which or 'xsd'
        for n, content in XSDS.items():
            if name == n:
                expect_status(response, 200, 'OK')
                check(response.http_content == content, 'the schema of exactly that name is returned', response.http_content)
                check(response.http_headers.get('Content-Type') == 'text/xml', 'documents are text/xml')
                return
        expect_status(response, 404, 'Not Found')
        check(response.http_content not in list(XSDS.values()), 'no schema is returned for an unknown name')
    else:
        expect_status(response, 400, 'Bad Request')


def wsdl_location(dispatcher, version, given):
    """Host and scheme in the WSDL: the host asked for, the scheme the client used."""
    extra = []
    scheme = 'http'
    if flip('wsgi.url_scheme'):
        scheme = anyof('https', sym('scheme', str))
        assume(scheme != '')
        extra.append(('wsgi.url_scheme', scheme))
    if flip('X_FORWARDED_PROTO'):
        scheme = anyof('https', sym('proto', str))
        assume(scheme != '')
        extra.append(('X_FORWARDED_PROTO', scheme))
    hosted = flip('HTTP_HOST')
    host = sym('host', str)
    assume(host != '')
    if hosted:
        extra.append(('HTTP_HOST', host))
    response = dispatch(dispatcher, http_request(version, 'GET', 'wsdl', extra), 'a WSDL request')
    expect_status(response, 200, 'OK')
    if given:
        where = scheme + '://' + host if hosted else '${scheme}://${host}'
        check(response.http_content == ('<definitions at="' + where + '/x"/>').encode(), 'the WSDL names host and scheme',
              response.http_content)
        return
    tree = tree_of(response.http_content)
    check(tree is not None, 'the WSDL is a document')
    if tree is None:
        return
    places = [e for e in tree.iter('{%s}address' % VERSIONS[version].BINDING_NAMESPACE)]
    check(len(places) == 1, 'the WSDL has one address')
    for e in places:
        where = scheme + '://' + host if hosted else '${scheme}://${host}'
        check(e.get('location') == where + '/ws', 'the WSDL names host and scheme', e.get('location'))


def schema_names(dispatcher, version):
    """Every schema that the documents refer to is served under the name they use."""
    names = sorted([n for n in dispatcher.xsds if n is not None])
    check(names == ['far.xsd', 'near.xsd', 'part.xsd'], 'every imported or included schema is served', names)
    todo = ['wsdl']
    seen = []
    while todo:
        query = todo.pop()
        if query in seen:
            continue
        seen.append(query)
        response = dispatch(dispatcher, http_request(version, 'GET', query), 'a document request')
        expect_status(response, 200, 'OK')
        tree = tree_of(response.http_content)
        check(tree is not None, 'a document is returned')
        if tree is None:
            return
        for tag in ('import', 'include'):
            for e in tree.iter('{http://www.w3.org/2001/XMLSchema}' + tag):
                location = e.get('schemaLocation')
                if e.get('namespace') == 'urn:probe:lone':
                    check(location is None, 'a schema without a location is named by its namespace only', location)
                    continue
                check(location is not None and location.startswith('?xsd='), 'references lead back to the dispatcher', location)
                todo.append(location[1:])
    check(sorted(seen) == ['wsdl', 'xsd=far.xsd', 'xsd=near.xsd', 'xsd=part.xsd'], 'every schema can be reached from the WSDL', seen)


# ---------------------------------------------------------------- C18
HOOKS = [k + '-' + w for k in ('soap', 'wsdl', 'xsd') for w in ('request', 'response')]


def build_hooked(version, active, mode):
    """A dispatcher with hooks; mode says what the active one returns."""
    def make(name):
        def hook(**kw):
            emit('hook', name, kw)
            obj = kw['response' if name.endswith('-response') else 'request']
            if name != active or mode == 'same':
                return obj
            if mode == 'wrong':
                return anyof(None, 'text', SOAPResponse('x') if name.endswith('-request') else kw['request'], sym('n', int))
            if name.endswith('-request'):
                env = dict(obj.environ)
                env['HTTP_HOST'] = 'replaced'
                env['QUERY_STRING'] = 'xsd=b c.xsd'
                new = SOAPRequest(env, obj.http_content)
            else:
                new = SOAPResponse('new', http_content=b'new', http_status_code=203)
            emit('replacement', new)
            return new
        return hook
    if mode == 'only':
        hooks = {active: make(active)}
    elif mode == 'none':
        hooks = None
    else:
        hooks = {n: make(n) for n in HOOKS}
    return build_static(version, hooks=hooks)


def hooked(dispatcher, version, kind, active, mode, query):
    xml_hooks(valid=lambda schema, doc: True)
    method = 'POST' if kind == 'soap' else 'GET' if kind != 'bad' else anyof('PUT', 'HEAD', '')
    request = http_request(version, method, query, (('HTTP_HOST', 'asked'),))
    fires = mode == 'wrong' and active.startswith(kind)
    try:
        response = dispatcher.dispatch(request)
    except TypeError:
        check(fires, 'TypeError only for a result of the wrong class')
        return
    except Exception as e:
        fail('no other exception leaves the dispatcher', e)
        return
    check(not fires, 'a result of the wrong class is refused with TypeError')
    calls = events('probe', 'hook')
    names = [c.args[0] for c in calls]
    if kind == 'bad' or mode == 'none':
        want = []
    elif mode == 'only':
        want = [n for n in (kind + '-request', kind + '-response') if n == active]
    else:
        want = [kind + '-request', kind + '-response']
    check(names == want, 'the hooks of the kind of request run once each, request first', names)
    new = events('probe', 'replacement')
    new = new[0].args[0] if new else None
    for c in calls:
        kw = c.args[1]
        check(kw['dispatcher'] is dispatcher, 'hooks get the dispatcher')
        if c.args[0].endswith('-request'):
            check(sorted(kw) == ['dispatcher', 'request'] and kw['request'] is request, 'request hooks get the request')
        else:
            check(sorted(kw) == ['dispatcher', 'request', 'response'], 'response hooks get request and response')
            check(kw['request'] is (new if active.endswith('-request') and new is not None else request),
                  'response hooks get the request that was handled')
            check(isinstance(kw['response'], SOAPResponse), 'response hooks get the response')
            check(response is (new if active.endswith('-response') and new is not None else kw['response']),
                  'the result of the response hook is the answer')
    handled = events('probe', 'handler')
    if kind == 'soap':
        check(len(handled) == 1, 'the handler runs')
        used = new if active == 'soap-request' and new is not None else request
        for h in handled:
            check(h.args[0] is used, 'what the request hook returns is handled')
            for c in calls:
                check((c.n < h.n) == c.args[0].endswith('-request'), 'request hooks run before, response hooks after the handler')
    if kind == 'wsdl' and mode == 'replace' and active == 'wsdl-request':
        check(b'replaced' in response.http_content, 'what the request hook returns is handled')
    if kind == 'xsd' and mode == 'replace' and active == 'xsd-request':
        check(response.http_content == b'<b/>' and response.http_status_code == 200, 'what the request hook returns is handled')


def hook_names(name, good):
    """Only the six hook names are accepted."""
    if name == 'any':
        name = sym('hook', str)
    hooks = {name: lambda **kw: kw['request']}
    if flip('next to a good one'):
        hooks = {'soap-request': lambda **kw: kw['request'], name: lambda **kw: kw['request']}
    service = linked_service('soap11')
    try:
        SOAPDispatcher(service, hooks=hooks, wsdl=WSDL, xsds=XSDS)
    except KeyError:
        if good is not None:
            check(not good, 'the six hook names are accepted')
        else:
            check(name not in HOOKS, 'the six hook names are accepted', name)
    except Exception as e:
        fail('other names are refused with KeyError', e)
    else:
        if good is not None:
            check(good, 'other names are refused')
        else:
            check(name in HOOKS, 'other names are refused', name)


# ---------------------------------------------------------------- C19
class Broken(Exception):
    pass


def build_stacked(version, n, behaviours):
    """A dispatcher with n middlewares, number i behaving as behaviours[i] says."""
    def make(i):
        what = behaviours[i]

        def middleware(request, next_call):
            emit('enter', i, request)
            result = None
            if what == 'pass':
                result = next_call(request)
            elif what == 'twice':
                next_call(request)
                result = next_call(request)
            elif what == 'answer':
                result = SOAPResponse(Resp(result='early'))
            elif what == 'replace':
                next_call(request)
                result = SOAPResponse(Resp(result='late'))
            elif what == 'swap':
                other = SOAPRequest(dict(request.environ), request.http_content)
                other.dispatcher = request.dispatcher
                emit('swapped', other)
                result = next_call(other)
            elif what == 'raise':
                raise SOAPError(VERSIONS[version].Code.SERVER, 'from middleware')
            elif what == 'break':
                raise Broken('from middleware')
            elif what == 'catch':
                try:
                    result = next_call(request)
                except (SOAPError, Broken) as e:
                    emit('caught', i, e)
                    result = SOAPResponse(Resp(result='caught'))
            emit('leave', i, result)
            return result
        return middleware

    def handler(request, body):
        emit('handler', request, body)
        how = behaviours[n]
        if how == 'raise':
            raise SOAPError(VERSIONS[version].Code.SERVER, 'from handler')
        if how == 'break':
            raise Broken('from handler')
        result = Resp(result='done')
        emit('result', result)
        return result if how == 'plain' else SOAPResponse(result)
    return SOAPDispatcher(make_service(version, handler), wsdl=WSDL, xsds=XSDS, middlewares=[make(i) for i in range(n)])


def expected_calls(n, behaviours):
    """(sequence of calls, kind of the outcome)"""
    log = []

    def run(i):
        if i == n:
            log.append('handler')
            if behaviours[n] == 'raise':
                return 'soap error'
            if behaviours[n] == 'break':
                return 'broken'
            return 'done'
        log.append('enter %d' % i)
        b = behaviours[i]
        out = None
        if b in ('pass', 'swap'):
            out = run(i + 1)
        elif b == 'twice':
            out = run(i + 1)
            if out in ('soap error', 'broken'):
                return out
            out = run(i + 1)
        elif b == 'answer':
            out = 'early'
        elif b == 'replace':
            out = run(i + 1)
            if out not in ('soap error', 'broken'):
                out = 'late'
        elif b == 'raise':
            out = 'soap error'
        elif b == 'break':
            out = 'broken'
        elif b == 'catch':
            out = run(i + 1)
            if out in ('soap error', 'broken'):
                out = 'caught'
        if out not in ('soap error', 'broken'):
            log.append('leave %d' % i)
        return out
    return log, run(0)


def stacked(dispatcher, version, n, behaviours):
    xml_hooks(valid=lambda schema, doc: True)
    request = http_request(version, 'POST', 'absent')
    log, outcome = expected_calls(n, behaviours)
    try:
        response = dispatcher.dispatch(request)
    except Broken:
        check(outcome == 'broken', 'exceptions become faults only by choice')
        response = None
    except Exception as e:
        fail('no other exception leaves the dispatcher', e)
        return
    else:
        check(outcome != 'broken', 'exceptions become faults only by choice')
    calls = [e for e in events('probe') if e.name in ('enter', 'leave', 'handler')]
    seen = ['handler' if e.name == 'handler' else '%s %d' % (e.name, e.args[0]) for e in calls]
    check(seen == log, 'middlewares wrap the handler in order', seen)
    passed = [request] + [None] * n
    for e in calls:
        if e.name == 'enter':
            k = e.args[0]
            check(e.args[1] is passed[k], 'each middleware gets the request its predecessor passed on')
            swapped = [s.args[0] for s in events('probe', 'swapped') if s.n > e.n]
            passed[k + 1] = swapped[0] if behaviours[k] == 'swap' and swapped else e.args[1]
        elif e.name == 'handler':
            check(e.args[0] is passed[n], 'the handler gets the request the innermost middleware passed on')
    if response is None or outcome == 'broken':
        return
    if outcome == 'soap error':
        check(is_fault(version, response), 'a SOAPError becomes a fault')
        if is_fault(version, response):
            check(fault_message(version, response) == ('from handler' if seen[-1] == 'handler' else 'from middleware'),
                  'the fault carries the message of the error')
        return
    tree = tree_of(response.http_content)
    check(tree[-1][0][0].text == outcome, 'the answer is what the outermost middleware returned', tree[-1][0][0].text)
    for e in calls:
        if e.name == 'leave':
            check(isinstance(e.args[1], SOAPResponse), 'middlewares see responses', e.args[1])
        if e.name == 'leave' and e.args[0] == n - 1 and behaviours[n - 1] == 'pass' and isinstance(e.args[1], SOAPResponse):
            check(any([r.args[0] is e.args[1].soap_body for r in events('probe', 'result')]), 'the response a middleware sees holds the result of the handler')
    left = [e for e in calls if e.name == 'leave' and e.args[0] == 0]
    if left:
        check(response is left[-1].args[1], 'the answer is what the outermost middleware returned')


def altered(version, when):
    """The list of middlewares is changed after the dispatcher was made, or used."""
    def make(name):
        def middleware(request, next_call):
            emit('enter', name)
            return next_call(request)
        return middleware

    def handler(request, body):
        emit('handler', request, body)
        return SOAPResponse(Resp(result='done'))
    xml_hooks(valid=lambda schema, doc: True)
    dispatcher = SOAPDispatcher(make_service(version, handler), wsdl=WSDL, xsds=XSDS, middlewares=None if when == 'none' else [make('given')])
    order = [] if when == 'none' else ['given']
    if when == 'used':
        dispatcher.dispatch(http_request(version, 'POST', 'absent'))
    for how in ('insert', 'append', 'remove', 'repeat', 'replace'):
        if how == 'insert':
            dispatcher.middlewares.insert(0, make('outer'))
            order = ['outer'] + order
        elif how == 'append':
            dispatcher.middlewares.append(make('inner'))
            order = order + ['inner']
        elif how == 'remove':
            dispatcher.middlewares.pop()
            order = order[:-1]
        elif how == 'repeat':
            dispatcher.middlewares.append(dispatcher.middlewares[0])
            order = order + order[:1]
        else:
            dispatcher.middlewares = [make('new')]
            order = ['new']
        before = len(events('probe'))
        dispatcher.dispatch(http_request(version, 'POST', 'absent'))
        seen = ['handler' if e.name == 'handler' else e.args[0] for e in events('probe')[before:] if e.name != 'ran']
        check(seen == order + ['handler'], 'middlewares wrap the handler in order, as the list is when the request comes', (how, seen))
    other = SOAPDispatcher(make_service(version, handler), wsdl=WSDL, xsds=XSDS)
    before = len(events('probe'))
    other.dispatch(http_request(version, 'POST', 'absent'))
    check([e.name for e in events('probe')[before:] if e.name != 'ran'] == ['handler'], 'a dispatcher has middlewares of its own')


class Unknown(Exception):
    pass


def raised(what):
    if what == 'soap':
        return SOAPError(sym('code', str), sym('message', str), sym('actor', str))
    text = sym('text', str)
    if what == 'value':
        return ValueError(text)
    if what == 'plain':
        return Exception(text)
    if what == 'own':
        return Unknown(text)
    if what == 'xml':
        return etree.XMLSyntaxError(text, 1, 1, 1)
    if what == 'empty':
        return ZeroDivisionError()
    if what == 'two':
        return OSError(sym('errno', int), text)
    if what == 'exit':
        return anyof(KeyboardInterrupt(), SystemExit(text))
    raise TypeError(what)


def to_fault(version, what, tb):
    """ExceptionToSoapFault around anything."""
    dispatcher = anyof_dispatcher(version)
    request = SOAPRequest({}, b'')
    request.dispatcher = dispatcher
    error = raised(what) if what != 'result' else None
    result = anyof(None, SOAPResponse('x'), sym('result'), SOAPError('c', 'm'))

    def next_call(r):
        emit('next', r)
        if error is not None:
            raise error
        return result
    wrap = mw.ExceptionToSoapFault(traceback=tb) if tb is not None else mw.ExceptionToSoapFault()
    try:
        got = wrap(request, next_call)
    except Exception as e:
        fail('no exception passes the middleware', e)
        return
    except BaseException as e:
        check(what == 'exit' and e is error, 'only exits pass the middleware')
        return
    calls = events('probe', 'next')
    check(len(calls) == 1 and calls[0].args[0] is request, 'next is called once with the request')
    if what == 'exit':
        fail('exits pass the middleware')
        return
    if what == 'result':
        check(identical(got, result), 'results pass through')
        return
    check(isinstance(got, SOAPError), 'an exception becomes an error result')
    if not isinstance(got, SOAPError):
        return
    if what == 'soap':
        check(got is error, 'a SOAPError becomes that error')
        return
    check(got.code == VERSIONS[version].Code.SERVER, 'any other exception becomes a server fault', got.code)
    if tb:
        check(mentions(got.message, 'traceback'), 'the traceback is told when asked for', got.message)
    else:
        check(got.message == type(error).__name__ + ': ' + str(error), 'the fault names the exception', got.message)


def anyof_dispatcher(version):
    class D:
        pass
    d = D()
    d.service = D()
    d.service.version = VERSIONS[version]
    return d


class Log:
    def exception(self, *args, **kw):
        emit('log', 'exception', args, kw)

    def error(self, *args, **kw):
        emit('log', 'error', args, kw)

    def __getattr__(self, name):
        def other(*args, **kw):
            emit('log', name, args, kw)
        return other


def logged(what, configured, tb):
    log = Log()
    error = raised(what) if what != 'result' else None
    result = sym('result')
    classes = {'default': None, 'value': (ValueError,), 'own': (Unknown, KeyError), 'none': (), 'soap': (SOAPError,)}[configured]
    kw = {} if classes is None else {'exceptions': classes}
    wrap = mw.ExceptionLogger(logger=log, traceback=tb, **kw)
    request = SOAPRequest({}, b'')

    def next_call(r):
        emit('next', r)
        if error is not None:
            raise error
        return result
    try:
        got = wrap(request, next_call)
    except BaseException as e:
        check(e is error, 'exceptions are re-raised unchanged', e)
    else:
        check(error is None, 'exceptions are re-raised')
        check(identical(got, result), 'results pass through')
    calls = events('probe', 'next')
    check(len(calls) == 1 and calls[0].args[0] is request, 'next is called once with the request')
    wanted = error is not None and isinstance(error, classes if classes is not None else Exception)
    logs = events('probe', 'log')
    check(len(logs) == (1 if wanted else 0), 'exactly the configured exceptions are logged', len(logs))
    if wanted and len(logs) == 1:
        how, args, kw = logs[0].args
        check(how in ('exception', 'error', 'critical', 'log'), 'exceptions are logged as errors', how)
        traced = bool(kw['exc_info']) if 'exc_info' in kw else how == 'exception'
        check(traced == tb, 'the traceback is logged exactly when asked for')


def logger_arguments():
    bad = anyof([ValueError], ValueError, None, 'ValueError', {ValueError}, sym('n', int))
    try:
        mw.ExceptionLogger(exceptions=bad)
    except TypeError:
        check(True, 'anything but a tuple is refused')
    except Exception as e:
        fail('anything but a tuple is refused with TypeError', e)
    else:
        fail('anything but a tuple is refused', bad)


# ---------------------------------------------------------------- C20
class Stub:
    """Stands for a dispatcher; gives the response it was made with."""
    def __init__(self, response):
        self.response = response

    def dispatch(self, request):
        emit('dispatch', request)
        return self.response


class Input:
    def __init__(self, content):
        self.content = content

    def read(self, *size):
        emit('read', size)
        return self.content


def any_response(small=False):
    content = anyof(sym('bytes', bytes), sym('text', str), 'bad_request')
    status = anyof(200, 404) if small else anyof(200, 400, 404, 500, 202, 299, 499)
    headers = {}
    for i in range(anyof(0, 2) if small else anyof(0, 1, 2)):
        headers[anyof('Content-Type', 'X-%d' % i) if i == 0 else 'X-%d' % i] = sym('header%d' % i, str)
    r = SOAPResponse(sym('body'), http_status_code=status, http_headers=headers)
    r.http_content = content
    return r


def as_bytes(x):
    return x.encode() if isinstance(x, str) else x


def wsgi(with_length):
    response = any_response()
    content = sym('content', bytes) if with_length == 'digits' else b''
    env = {'wsgi.input': Input(content), 'REQUEST_METHOD': sym('method', str)}
    length = sym('length', int)
    assume(length > 0)
    if with_length == 'digits':
        env['CONTENT_LENGTH'] = str(length)
    elif with_length == 'empty':
        env['CONTENT_LENGTH'] = ''
    before = dict(env)

    def start_response(status, headers, *exc):
        emit('start', status, headers)
    out = WsgiSoapApplication(Stub(response))(env, start_response)
    calls = events('probe', 'dispatch')
    check(len(calls) == 1, 'the dispatcher is asked once')
    if len(calls) != 1:
        return
    request = calls[0].args[0]
    check(identical(request.http_content, content), 'the dispatcher gets the request body')
    check(request.environ is env and env == before, 'the dispatcher gets the environment')
    reads = events('probe', 'read')
    for r in reads:
        check(len(r.args[0]) == 1 and r.args[0][0] == (length if with_length == 'digits' else 0),
              'the body is read up to the length given', r.args)
    starts = events('probe', 'start')
    check(len(starts) == 1, 'the response is started once')
    if len(starts) == 1:
        status, headers = starts[0].args
        check(isinstance(status, str) and status.startswith('%d ' % response.http_status_code), 'the status is that of the response', status)
        check(type(headers) is list and headers == list(response.http_headers.items()), 'every header of the response is sent', headers)
    out = list(out)
    check(len(out) == 1 and isinstance(out[0], bytes), 'the body is bytes', out)
    if len(out) == 1:
        check(identical(out[0], as_bytes(response.http_content)), 'the body is that of the response')


class Headers(dict):
    def set(self, key, value, **kw):
        self[key] = value

    def add(self, key, value, **kw):
        self[key] = value

    def extend(self, other):
        self.update(other)


class FlaskResponse:
    def __init__(self, response=None, status=None, headers=None, mimetype=None, content_type=None, direct_passthrough=False):
        self.content = response
        self.headers = Headers({'Content-Type': content_type or mimetype or 'text/html'})
        if headers is not None:
            self.headers.update(headers)
        self.status_code = 200 if status is None else status

    def set_data(self, value):
        self.content = value

    def result(self):
        return self.content, self.status_code, self.headers


class FlaskRequest:
    def __init__(self, content, env):
        self.content = content
        self.environ = env
        self.data = sym('body unless it is form data', bytes)
        self.method = env['REQUEST_METHOD']

    def get_data(self, cache=True, as_text=False, parse_form_data=False):
        if parse_form_data or as_text:
            return self.data
        return self.content


class DjangoResponse:
    def __init__(self, content=b'', content_type=None, status=None, reason=None, charset=None, headers=None):
        self.content = content
        self.headers = Headers({'Content-Type': content_type or 'text/html'})
        if headers is not None:
            self.headers.update(headers)
        self.status_code = 200 if status is None else status

    def __setitem__(self, key, value):
        self.headers[key] = value

    def __getitem__(self, key):
        return self.headers[key]

    def result(self):
        return self.content, self.status_code, self.headers


class DjangoRequest:
    def __init__(self, content, env):
        self.body = content
        self.environ = env
        self.META = env
        self.method = env['REQUEST_METHOD']


def exempted(view):
    view.csrf_exempt = True
    return view


def framework(kind):
    """A request through the Flask or Django view, the dispatcher answering anything."""
    response = any_response(small=True)
    content = sym('content', bytes)
    env = {'REQUEST_METHOD': sym('method', str), 'SOAPACTION': sym('action', str)}

    def dispatched(self, request):
        emit('dispatch', request, self)
        return response
    func_hook('soapfish.soap_dispatch:SOAPDispatcher.dispatch', dispatched)
    service = make_service('soap11', answer)
    if kind == 'flask':
        from soapfish import flask_
        request = FlaskRequest(content, env)
        provide('flask.request', request)
        provide('flask.Response', FlaskResponse)
        got = flask_.flask_dispatcher(service, wsdl=WSDL, xsds=XSDS)()
    else:
        from soapfish import django_
        request = DjangoRequest(content, env)
        provide('django.http.HttpResponse', DjangoResponse)
        provide('django.views.decorators.csrf.csrf_exempt', exempted)
        view = django_.django_dispatcher(service, wsdl=WSDL, xsds=XSDS)
        check(getattr(view, 'csrf_exempt', False) is True, 'clients of a service need no CSRF token')
        got = view(request)
    calls = events('probe', 'dispatch')
    check(len(calls) == 1, 'the dispatcher is asked once')
    if len(calls) != 1:
        return
    seen, dispatcher = calls[0].args
    check(dispatcher.service is service and dispatcher.wsdl is WSDL and dispatcher.xsds is XSDS, 'the dispatcher is made as asked')
    check(identical(seen.http_content, content), 'the dispatcher gets the request body')
    for k in env:
        check(identical(seen.environ.get(k), env[k]), 'the dispatcher gets the environment')
    check(seen.environ.get('QUERY_STRING', 'none') == 'none', 'the dispatcher gets the environment')
    out, status, headers = got.result()
    check(identical(as_bytes(out), as_bytes(response.http_content)), 'the body is that of the response')
    check(status == response.http_status_code, 'the status is that of the response', status)
    for k, v in response.http_headers.items():
        check(identical(headers.get(k), v), 'every header of the response is sent', k)
    check(all([k == 'Content-Type' or k in response.http_headers for k in headers]), 'no other header is sent', list(headers))


def django_environ(asked):
    """Headers are found under their plain or HTTP_ name."""
    from soapfish import django_
    names = {'REQUEST_METHOD': 'REQUEST_METHOD', 'SOAPAction': 'SOAPACTION', 'soapaction': 'SOAPACTION',
             'Content-Type': 'CONTENT_TYPE', 'X-Forwarded-Proto': 'X_FORWARDED_PROTO', 'HTTP_HOST': 'HTTP_HOST'}
    name = names[asked]
    env = {'OTHER': 'other'}
    want = default = anyof(None, sym('default', str))
    if flip('under HTTP_'):
        want = env['HTTP_' + name] = anyof('', sym('http value', str))
    if flip('plain'):
        want = env[name] = anyof('', sym('plain value', str))
    wrapper = django_.DjangoEnvironWrapper(env)
    got = wrapper.get(asked) if default is None else wrapper.get(asked, default)
    check(identical(got, want), 'headers are found under their plain or HTTP_ name', got)
