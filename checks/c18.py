from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of dispatching with every hook registered alone and together, the hooks returning what they were given, '
    'something new or a value of a wrong class; calls, arguments, order and what is used afterwards are compared with the rule on every '
    'trace. Hook names: an undetermined name and a table of near misses.')
ASSUMPTIONS = ['hooks are functions taking keyword arguments']
RULE = 'each hook once for its own event, its result used from there on, other classes and names refused'
NAMES = ('soap-request', 'soap-response', 'wsdl-request', 'wsdl-response', 'xsd-request', 'xsd-response')
BAD = ('', 'soap', 'soap-requests', 'soap-request\n', ' soap-request', 'xsoap-request', 'Soap-request', 'soap_request', 'wsdl-', '-request',
       'xsd-respons', 'soap-request-response', 'http-request', 'xsd-response ', 'soap|wsdl-request')


def scenarios(tier):
    for v in ('soap11', 'soap12') if tier == 'thorough' else ('soap11',):
        for a in NAMES:
            for m in ('same', 'replace', 'wrong', 'only', 'none'):
                for kind, q in (('soap', 'absent'), ('soap', 'wsdl'), ('wsdl', 'wsdl'), ('wsdl', 'singleWsdl'), ('xsd', 'xsd=a.xsd'),
                                ('xsd', 'xsd=unknown'), ('bad', 'wsdl')):
                    yield Scenario('http', 'hooked', (v, kind, a, m, q), rule=RULE, setup=('build_hooked', v, a, m))
        for a in NAMES:
            for m in ('same', 'replace', 'only'):
                for kind, q in (('soap', 'absent'), ('wsdl', 'wsdl'), ('xsd', 'xsd=a.xsd'), ('bad', 'wsdl')):
                    yield Scenario('http', 'hooked', (v, kind, a, m, q), rule=RULE, setup=('build_hooked_busy', v, a, m),
                                   label=f'hooked{(v, kind, a, m, q)} later')
    yield Scenario('http', 'hook_names', ('any', None), rule=RULE)
    for n in NAMES:
        yield Scenario('http', 'hook_names', (n, True), rule=RULE)
    for n in BAD:
        yield Scenario('http', 'hook_names', (n, False), rule=RULE)
