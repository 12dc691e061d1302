from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation with an uninterpreted acceptance check: a simple type whose accept() either refuses or returns a token of '
    'unknown value. Every way to set every kind of field (keyword, assignment, group, parsing; element, tagged, nillable, list, attribute, '
    'inherited) is interpreted with an unknown value; what is stored must be the token, by provenance.')
ASSUMPTIONS = ['fields are set through the public ways named by the property (not object.__setattr__ or __dict__)']
RULE = 'stored value = result of the declared type\'s accept'


def scenarios(tier):
    for f in ('a', 't', 'n', 'k', 'b'):
        for how in ('assign', 'keyword', 'parse'):
            yield Scenario('model', 'accepted_field', (f, how), rule=RULE)
    yield Scenario('model', 'accepted_field', ('l', 'parse'), rule=RULE)
    yield Scenario('model', 'accepted_field', ('ga', 'group'), rule=RULE)
    yield Scenario('model', 'accepted_field', ('ga', 'parse'), rule=RULE)
    for how in ('append', 'insert', 'extend', 'setitem', 'assign', 'keyword', 'parse'):
        yield Scenario('model', 'list_item', (how, 1), rule=RULE)
    for how in ('assign', 'keyword', 'append', 'list'):
        yield Scenario('model', 'accepted_class', (how,), rule=RULE)
    for how in ('assign', 'concrete', 'tag', 'keyword'):
        yield Scenario('model', 'unknown_field', (how,), rule='undeclared names are refused')
    for kind in ('elem', 'complex', 'attr', 'list'):
        for n in (True, False):
            yield Scenario('model', 'nil_field', (kind, n), rule='nil only where nillable')
    for kind in ('String', 'Integer', 'Boolean', 'Date', 'DateTime', 'Time', 'Decimal', 'MaxOccurs'):
        for v in ('int', 'str', 'float', 'bytes', 'list', 'object', 'bool', 'instance', 'nil'):
            yield Scenario('lexical', 'field_wrong_type', (kind, v), rule='refused values are not stored', thorough=v not in ('list', 'object', 'nil'))
