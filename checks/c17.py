from .dispatching import VERSIONS
from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of dispatching for every request method (GET, POST, others, absent, undetermined) and query string (a table of '
    'spellings, absent, undetermined); status, status line, content and content type are compared with the route the rule names. Generated '
    'documents are followed from the WSDL through every schema reference back into the dispatcher.')
ASSUMPTIONS = ['$-placeholders in the WSDL are those of string.Template']
RULE = 'GET wsdl/singleWsdl, GET xsd=<name>, POST; anything else is a bad request'
QUERIES = ('any', 'absent', '', 'wsdl', 'wsdl=', 'WSDL', 'singleWsdl', 'a=1&wsdl', 'xsd', 'xsd=', 'xsd=a.xsd', 'xsd=b+c.xsd', 'xsd=b%20c.xsd',
           'xsd=A.xsd', 'xsd=a', 'xsd=unknown', 'xsd=../a.xsd', 'xsd=a.xsd&xsd=zz', 'xsd=zz&xsd=a.xsd', 'xsd=a.xsd&wsdl', 'wsd', 'xsdl=a.xsd',
           'foo=xsd', 'foo=wsdl', 'xsd=xsd%3Dd')


def scenarios(tier):
    for v in VERSIONS:
        for m in 'GET', 'POST', 'PUT', 'HEAD', 'get', '', 'any', 'absent':
            for q in QUERIES if m in ('GET', 'POST', 'any') or tier == 'thorough' else QUERIES[:5] + ('xsd=a.xsd',):
                yield Scenario('http', 'routed', (v, m, q), rule=RULE, setup=('build_static', v))
        for m in 'GET', 'POST', 'any':
            for q in 'any', 'wsdl', 'xsd=a.xsd', 'xsd=unknown', 'absent':
                yield Scenario('http', 'routed', (v, m, q), rule=RULE, setup=('build_static_busy', v), label=f'routed{(v, m, q)} later')
        for given in (True, False):
            yield Scenario('http', 'wsdl_location', (v, given), rule=RULE, setup=('build_static_busy', v, given), label=f'wsdl_location{(v, given)} later')
        yield Scenario('http', 'schema_names', (v,), rule=RULE, setup=('build_static_busy', v, False), label=f'schema_names({v}) later')
        for given in (True, False):
            yield Scenario('http', 'wsdl_location', (v, given), rule=RULE, setup=('build_static', v, given))
        yield Scenario('http', 'schema_names', (v,), rule=RULE, setup=('build_static', v, False))
