from .dispatching import VERSIONS
from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of dispatching with handlers and middlewares that give every kind of result - plain object, response with header, '
    'status or headers, SOAPError returned, raised or wrapped - with undetermined content; the envelope that comes out is compared with the '
    'result that went in: body element, header blocks, fault code and message, status, content type.')
ASSUMPTIONS = ['text is not empty (an empty element and one without text are the same document)',
               'header blocks without a namespace of their own: see the known finding']
RULE = 'one envelope that carries the result, or one fault that carries the error'
KINDS = ('object', 'response', 'status', 'headers', 'own type', 'error', 'raised', 'wrapped', 'wrapped status')


def scenarios(tier):
    for v in VERSIONS:
        for k in KINDS:
            for header in (True, False):
                for by in ('handler', 'middleware'):
                    for output in ('named', 'class') if by == 'handler' else ('named',):
                        yield Scenario('dispatch', 'answered', (v, k, header, by, output), rule=RULE,
                                       setup=('build_answering', v, k, header, by, output))
        for k in KINDS[:5]:
            for by in ('handler', 'middleware'):
                yield Scenario('dispatch', 'answered', (v, k, True, by, 'named'), rule=RULE, label=f'answered{(v, k, by)} later',
                               setup=('build_answering_busy', v, k, True, by, 'named'))
        yield Scenario('dispatch', 'unprintable', (v,), rule=RULE, setup=('build_raising', v))
        yield Scenario('dispatch', 'header_namespace', (v,), rule=RULE, setup=('build_answering', v, 'response', True, 'handler'))
