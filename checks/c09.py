from .framework import Scenario
from .kinds import nillable

EXPLANATION = (
    'Abstract interpretation of setting, rendering and reading nil for element, complex element, list and attribute fields, nillable or not, '
    'and of reading elements with xsi:nil absent, true, 1, false, 0 or any other text.')
ASSUMPTIONS = ['attributes have no xsi:nil representation; only the refusal of nil for non-nillable attributes is checked']
RULE = 'nil <=> xsi:nil is true; only where nillable'


def scenarios(tier):
    for k in nillable():
        yield Scenario('model', 'render_shape', ((k,),), rule=RULE)
        yield Scenario('model', 'roundtrip', ((k,),), rule=RULE)
    for kind in ('elem', 'complex', 'attr', 'list'):
        for n in (True, False):
            for o in (False, True):
                yield Scenario('model', 'nil_field', (kind, n, o), rule=RULE)
    for kind in ('elem', 'complex', 'list', 'clist'):
        for n in (True, False):
            for o in (False, True):
                yield Scenario('model', 'nil_read', (kind, n, o), rule=RULE)
