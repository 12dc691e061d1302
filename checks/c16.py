from .dispatching import D, VERSIONS
from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of dispatching for every pair of SOAP action (none, undetermined, each known one; quoted and bare) and body '
    'element (input of an operation, member of a substitution group, known to no operation, member of a group without head, undetermined), '
    'in both SOAP versions; the operation whose handler runs is compared with the one the rule names.')
ASSUMPTIONS = ['the action is a URI: it holds no quotes, backslashes, semicolons or surrounding blanks',
               'one service with four operations stands for services; the code under analysis only iterates over operations']
RULE = 'the action decides, else the root element, else the head of its substitution group'


def scenarios(tier):
    for v in VERSIONS:
        for root in 'first', 'second', 'derived', 'lonely', 'orphan', 'unknown':
            for q in True, False:
                for k in 'none', 'any', 'urn:first', 'urn:second', 'urn:fourth':
                    yield D('routing', v, root, q, k, rule=RULE)
        for root in 'first', 'second', 'derived', 'lonely':
            for k in 'none', 'any':
                yield D('routing', v, root, True, k, rule=RULE, busy=True)
    yield Scenario('dispatch', 'foreign_content_type', rule=RULE, setup=('build', 'soap12'))
