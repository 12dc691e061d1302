from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of two declarations which differ only in how the type of a field is given (dotted name, class, object): for every '
    'kind of type and every kind of field the same values are accepted, stored, written and read, the generated schema documents are the '
    'same, and services on elements given by name work. Classes which refer to themselves, to each other and to classes which do not exist '
    'yet are declared, filled, written, read and described.')
ASSUMPTIONS = ['the module of a name can be imported', 'types given as objects are defined in place (their schema documents differ, see C25)']
RULE = 'however a type is given, the outcome is the same'
SIMPLE = ('builtin', 'text', 'flag', 'code', 'small', 'short', 'padded', 'digits')
PLACES = ('element', 'required', 'list', 'attribute', 'needed', 'grouped', 'attributes')


def scenarios(tier):
    for how in ('name', 'object'):
        for kind in SIMPLE + ('complex',):
            for place in PLACES:
                if kind == 'complex' and place in ('attribute', 'needed', 'attributes'):
                    continue
                yield Scenario('named', 'same_outcome', (kind, place, how), rule=RULE)
                yield Scenario('named', 'same_reading', (kind, place, how), rule=RULE)
        for kind in ('group', 'agroup'):
            yield Scenario('named', 'same_outcome', (kind, 'ref', how), rule=RULE)
            yield Scenario('named', 'same_reading', (kind, 'ref', how), rule=RULE)
        for position in ('input', 'output', 'both'):
            yield Scenario('named', 'service', (how, position), rule=RULE)
    for kind in SIMPLE + ('complex',):
        for place in PLACES + ('global', 'inline', 'nested'):
            if kind == 'complex' and place in ('attribute', 'needed', 'attributes'):
                continue
            yield Scenario('named', 'same_schema', (kind, place), rule=RULE)
    for depth in (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3):
        yield Scenario('named', 'recursive', (depth,), rule=RULE)
    for place in ('element', 'list', 'attribute'):
        yield Scenario('named', 'late', (place,), rule=RULE)
    yield Scenario('named', 'refused', rule=RULE)
