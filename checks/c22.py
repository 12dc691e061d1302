from .dispatching import VERSIONS
from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of writing and reading back faults and responses of both SOAP versions with undetermined code, message, actor, '
    'header and body (compared by provenance), of the position of every part in the abstract envelope tree, and of the action announced '
    'by a client against the action read by the server in plain, WSGI and Django environments.')
ASSUMPTIONS = ['texts are not empty (an empty element and one without text are the same document)',
               'actions hold no quotes or backslashes (they are URIs)',
               'WSGI servers present HTTP headers as PEP 3333 says']
RULE = 'what is written in one version is read back in the same version'


def scenarios(tier):
    for v in VERSIONS:
        yield Scenario('client', 'interface', (v,), rule='both versions offer the same interface')
        yield Scenario('client', 'no_action', (v,), rule=RULE)
        for code in ('client', 'server', 'any'):
            for actor in (True, False):
                for header in ('none', 'full', 'part'):
                    for positional in (True, False):
                        yield Scenario('client', 'fault_round_trip', (v, code, actor, header, positional), rule=RULE)
        for header in ('none', 'full', 'part'):
            for body in ('full', 'empty'):
                yield Scenario('client', 'response_round_trip', (v, header, body), rule=RULE)
        for style in ('wsgi', 'plain', 'django'):
            for which in ('uri', 'urn', 'word', 'spaced', 'semicolon', 'empty', 'any'):
                yield Scenario('client', 'action_agreement', (v, style, which), rule='the action announced is the action read')
    for which in VERSIONS + ('unknown',):
        yield Scenario('client', 'versions_by_namespace', (which,), rule='namespaces name their version')
