import itertools

from .framework import Scenario
from .kinds import every

EXPLANATION = (
    'Heap analysis: the abstract heap reachable from two objects of a class is computed after construction, filling and parsing; the two '
    'reachable sets must be disjoint (classes and declarations aside), and the picture of every other and every later object is unchanged.')
ASSUMPTIONS = ['declared defaults are immutable values of simple types']
RULE = 'reachable mutable cells of two objects are disjoint'
KINDS = ('elem', 'tagged', 'complex', 'list', 'clist', 'group', 'agroup', 'attr', 'rattr')


def scenarios(tier):
    for k in every():
        yield Scenario('model', 'independent', ((k,), 'constructed'), rule=RULE)
        yield Scenario('model', 'independent', ((k,), 'parsed'), rule=RULE)
    for k in KINDS:
        for how in ('constructed', 'parsed'):
            yield Scenario('model', 'independent', ((k,), how), rule=RULE)
    for a, b in itertools.product(('elem', 'list', 'group', 'complex'), repeat=2):
        yield Scenario('model', 'independent', ((a, b), 'constructed'), rule=RULE)
        yield Scenario('model', 'independent', ((a, b, 'list'), 'constructed'), rule=RULE, thorough=True)
    yield Scenario('model', 'nested_independent', rule=RULE)
    yield Scenario('model', 'from_same_list', rule=RULE)
