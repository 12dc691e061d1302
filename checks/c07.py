import itertools

from .framework import Scenario
from .kinds import every

EXPLANATION = (
    'Abstract interpretation of ComplexType rendering over classes with every combination of one, two and three field kinds (inherited first): '
    'values are unknown texts and numbers, set/unset and list lengths up to 2 are enumerated; the abstract element tree is compared '
    'with the tree the declaration requires, and the object with its picture before rendering.')
ASSUMPTIONS = ['lists longer than two items are rendered like shorter ones']
RULE = 'one child per set field or item, in declaration order, under its tag; one attribute per set attribute'
KINDS = ('elem', 'tagged', 'int', 'bool', 'complex', 'ctagged', 'list', 'ilist', 'clist', 'group', 'agroup', 'attr', 'tattr', 'iattr', 'rattr')
MORE = ('byname', 'relem', 'rtagged', 'rcomplex', 'delem', 'dattr', 'nelem', 'ncomplex', 'nlist', 'rlist', 'nsed')
MAIN = ('elem', 'tagged', 'complex', 'list', 'group', 'attr', 'tattr')


def scenarios(tier):
    for k in every():
        yield Scenario('model', 'render_shape', ((k,),), rule=RULE)
    for k in KINDS:
        yield Scenario('model', 'render_shape', ((k,),), rule=RULE)
    for k in MORE:
        yield Scenario('model', 'render_shape', ((k,),), rule=RULE)
        for m in MAIN:
            yield Scenario('model', 'render_shape', ((m, k),), rule=RULE, thorough=m not in ('tagged', 'list'))
            yield Scenario('model', 'render_shape', ((k, m),), rule=RULE, thorough=m not in ('elem', 'complex'))
    for a, b in itertools.product(MORE, MORE):
        yield Scenario('model', 'render_shape', ((a, b),), rule=RULE, thorough=True)
    for a, b in itertools.product(KINDS, KINDS):
        yield Scenario('model', 'render_shape', ((a, b),), rule=RULE, thorough=not (a in MAIN and b in MAIN))
    for t in itertools.product(MAIN, MAIN, MAIN):
        yield Scenario('model', 'render_shape', (t,), rule=RULE, thorough=len(set(t)) < 3 or tuple(sorted(t)) == t)
    yield Scenario('model', 'required_attribute', rule='required attributes')
