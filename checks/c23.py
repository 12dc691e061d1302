from .dispatching import VERSIONS
from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of the client stub with the HTTP library replaced by a recorder: every operation, with and without credentials, '
    'header, declared output header, replies with body, header, fault, comments; the request sent and the result are compared by provenance '
    'with what went in.')
ASSUMPTIONS = ['requests.post sends what it is given (trusted library)', 'one service with four operations stands for services']
RULE = 'one correct request; faults raised, replies returned as declared'


def scenarios(tier):
    for k in ('default', 'branded', 'text', 'function', 'bound', 'rebound', 'wrong'):
        yield Scenario('client', 'stub_location', (k,), rule='the location of the stub')
    for v in VERSIONS:
        for declared in (True, False):
            setup = ('stub_service', v, declared, ())
            for op in ('First', 'Second', 'Third'):
                for kind in ('plain', 'with header', 'fault', 'fault with actor'):
                    for cred in ('none', 'both', 'user'):
                        for head in (True, False):
                            yield Scenario('client', 'called', (v, op, kind, declared, cred, head), rule=RULE, setup=setup)
            for earlier in ((('First', 'with header'),), (('Second', 'fault'), ('First', 'plain')), (('Third', 'with header'), ('First', 'fault'))):
                for op in ('First', 'Third'):
                    for kind in ('plain', 'with header', 'fault with actor'):
                        yield Scenario('client', 'called', (v, op, kind, declared, 'both', op == 'First', earlier), rule=RULE, setup=setup)
            yield Scenario('client', 'unknown_operation', (v,), rule=RULE, setup=setup)
            for kind in ('comments', 'empty header', 'fault'):
                yield Scenario('client', 'foreign_reply', (v, kind), rule=RULE, setup=setup)
