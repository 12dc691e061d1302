import itertools

from .framework import Scenario
from .kinds import every

EXPLANATION = (
    'Abstract interpretation of rendering followed by parsing of the abstract tree, over classes with every combination of up to three field '
    'kinds; values are unknown and compared by provenance. Parsing is also interpreted on trees with comments, processing instructions and '
    'unknown elements at every position.')
ASSUMPTIONS = ['the empty text is read as no value (the parser of soapfish cannot tell an empty element from one without text)',
               'choice indicators are excluded (their reading is not symmetric to their writing by design)',
               'lists longer than two items behave like shorter ones',
               'lxml serialisation followed by lxml parsing yields the same tree (trusted library)']
RULE = 'parse(render(x)) = x, field by field'
KINDS = ('elem', 'tagged', 'int', 'bool', 'complex', 'ctagged', 'list', 'ilist', 'clist', 'group', 'agroup', 'attr', 'tattr', 'iattr', 'rattr')
MORE = ('byname', 'relem', 'rtagged', 'rcomplex', 'delem', 'dattr', 'nelem', 'ncomplex', 'nlist', 'rlist', 'nsed')
MAIN = ('tagged', 'complex', 'list', 'group', 'tattr')


def scenarios(tier):
    for k in every():
        yield Scenario('model', 'roundtrip', ((k,),), rule=RULE)
    for k in KINDS:
        yield Scenario('model', 'roundtrip', ((k,),), rule=RULE)
    for k in MORE:
        yield Scenario('model', 'roundtrip', ((k,),), rule=RULE)
        for m in MAIN:
            yield Scenario('model', 'roundtrip', ((m, k),), rule=RULE, thorough=m not in ('tagged', 'list'))
            yield Scenario('model', 'roundtrip', ((k, m),), rule=RULE, thorough=m not in ('elem', 'complex'))
    for a, b in itertools.product(MORE, MORE):
        yield Scenario('model', 'roundtrip', ((a, b),), rule=RULE, thorough=True)
    for a, b in itertools.product(KINDS, KINDS):
        if a == b and a in ('group', 'agroup'):
            continue  # two references to one group are ambiguous
        yield Scenario('model', 'roundtrip', ((a, b),), rule=RULE, thorough=not (a in MAIN and b in MAIN))
    for t in itertools.product(MAIN, MAIN, MAIN):
        if t.count('group') > 1:
            continue
        yield Scenario('model', 'roundtrip', (t,), rule=RULE, thorough=True)
    yield Scenario('model', 'crossed_names', rule=RULE)
    yield Scenario('model', 'nested_depth', rule=RULE)
    for n in (None, 'urn:own'):
        for what in ('Element', 'Attribute', 'ListElement', 'complex'):
            yield Scenario('model', 'any_tag', (n, what), rule=RULE)
    for nsd in (False, True):
        for k in KINDS:
            if k not in ('bool', 'ilist'):
                yield Scenario('model', 'parse_noise', ((k,), nsd), rule='noise between elements is ignored')
        for t in (('elem', 'complex'), ('list', 'tattr'), ('group', 'agroup'), ('elem', 'list'), ('int', 'clist')):
            yield Scenario('model', 'parse_noise', (t, nsd), rule='noise between elements is ignored', thorough=nsd)
