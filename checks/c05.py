from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of accept (and, for what is accepted, xmlvalue) of every concrete simple type on one unknown value per Python type '
    '(number kinds, text, bytes, containers, date/time kinds, objects, classes, the nil marker): refusal must be ValueError, an accepted value '
    'must belong to the documented types and be writable; None passes.')
RULE = 'wrong-typed value => ValueError; accepted value => writable; None => None'
TYPES = ('String', 'AnyURI', 'QName', 'NMTOKEN', 'Base64Binary', 'Duration', 'Boolean', 'Date', 'DateTime', 'Time', 'Decimal', 'Double',
         'Float', 'Integer', 'NonNegativeInteger', 'Int', 'UnsignedByte', 'MaxOccurs')
KINDS = ('int', 'float', 'str', 'bytes', 'Decimal', 'bool', 'list', 'tuple', 'dict', 'set', 'object', 'instance', 'nil', 'date', 'datetime',
         'time', 'delta', 'class')


def scenarios(tier):
    for t in TYPES:
        yield Scenario('lexical', 'none', (t,), rule=RULE)
        for k in KINDS:
            yield Scenario('lexical', 'wrong_type', (t, k), rule=RULE)
            if k != 'nil' and (tier != 'quick' or t in ('String', 'Boolean', 'Date', 'DateTime', 'Time', 'Decimal', 'Int')):
                yield Scenario('lexical', 'field_wrong_type', (t, k), rule=RULE)
    for t in ('String', 'AnyURI', 'Decimal', 'Integer', 'Int', 'Double'):
        yield Scenario('lexical', 'none_constrained', (t,), rule=RULE)
