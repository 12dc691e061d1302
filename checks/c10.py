from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of every way items get into a list field (append, insert, extend, +=, index and slice assignment, whole list, '
    'keyword, parsing) with an uninterpreted acceptance check, and of occurrence bounds - enumerated and as unknown numbers - against lists '
    'of every length up to 4.')
ASSUMPTIONS = ['list operations other than the ones above (sort, reverse, pop, *=) do not introduce items',
               'lists longer than four items behave like shorter ones against unknown bounds']
RULE = 'stored items = results of the item type\'s accept; minOccurs <= len <= maxOccurs when rendered'


def scenarios(tier):
    for how in ('append', 'insert', 'extend', 'extend generator', 'iadd', 'setitem', 'setslice', 'assign', 'keyword', 'parse'):
        for n in (0, 1, 2):
            if n or how not in ('setitem', 'setslice'):
                yield Scenario('model', 'list_item', (how, n), rule=RULE)
    for what in ('list', 'tuple', 'generator', 'typed', 'own', 'values', 'str', 'bytes', 'dict', 'int', 'object', 'bool', 'complex', 'class', 'nil'):
        yield Scenario('model', 'list_whole', (what,), rule=RULE)
    yield Scenario('model', 'list_positions', rule=RULE)
    for kind in ('simple', 'complex'):
        yield Scenario('model', 'list_bounds', (kind,), rule=RULE)
    yield Scenario('model', 'list_bounds_symbolic', rule=RULE)
    for n in (True, False):
        yield Scenario('model', 'nil_field', ('list', n), rule='nil items only where nillable')
