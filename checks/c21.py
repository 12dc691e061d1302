from . import effects
from .framework import Query, Scenario

EXPLANATION = (
    'Effect analysis: a call graph of the syntax trees (names through imports, methods by name, callbacks of library subclasses, functions '
    'passed as values) is closed from everything serving consists of, and no function in the closure may touch files or network. On top, '
    'building and serving is interpreted abstractly over every route with unknown requests: no input or output event, no parser with network, '
    'DTD or external entities for request bytes, and a schema resolver that answers the known locations with the schemas given and refuses '
    'every other location (an unknown text distinct from the known ones).')
ASSUMPTIONS = ['lxml parsers of the default configuration do not fetch external entities (lxml >= 5)',
               'importing soapfish reads its own packaged wsa.xsd once; that is not serving',
               'handlers, hooks and middlewares of the user are not part of soapfish',
               'the effects are the listed library entry points; getattr with a computed name is not followed by the call graph']
TECHNIQUE = 'effect analysis over a call graph, and abstract interpretation of building and serving'
RULE = 'no effect reachable from serving'


def scenarios(tier):
    yield Query('call graph of serving', effects.serving, RULE)
    for v in ('soap11', 'soap12'):
        for kind in ('linked', 'plain'):
            for given in (False, True):
                yield Scenario('effects', 'building', (v, kind, given), rule=RULE)
                for route in ('soap', 'get', 'documents'):
                    yield Scenario('effects', 'served', (v, route), rule=RULE, setup=('make', v, kind, given),
                                   label=f'served{v, kind, given, route}')
    for s in (True, False):
        yield Scenario('effects', 'parsed_model', (s,), rule=RULE)
    for shape in ('chain', 'diamond', 'cycle', 'single', 'none'):
        for which in ('known', 'unknown'):
            yield Scenario('effects', 'resolving', (shape, which), rule='references resolve to the schemas given or are refused')
