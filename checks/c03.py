import itertools

from .framework import Scenario

EXPLANATION = (
    'For each built-in integer class the accept method is interpreted abstractly on an unknown integer (zone domain) and on unknown '
    'text, with every combination of user bounds given to the constructor or on a subclass; every trace must accept exactly '
    'when the integer lies in the XML Schema range of the class (table in the rule) and inside the user bounds.')
BASES = ('Integer', 'NonNegativeInteger', 'NonPositiveInteger', 'NegativeInteger', 'PositiveInteger', 'Long', 'Int', 'Short',
         'Byte', 'UnsignedLong', 'UnsignedInt', 'UnsignedShort', 'UnsignedByte')
NAMES = ('minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive')
RULE = 'integer accepted iff inside the XSD range of the class and inside the user bounds'


def scenarios(tier):
    for b in BASES:
        for n in ((0, 1, 2) if tier == 'quick' else (0, 1, 2, 3, 4)):
            for names in itertools.combinations(NAMES, n):
                for how in ('constructor', 'subclass', 'mixed'):
                    yield Scenario('numbers', 'in_range', (b, names, 'int', how), rule=RULE)
                    yield Scenario('numbers', 'nested', (b, names, how), rule=RULE)
                if len(names) < 2:
                    yield Scenario('numbers', 'in_range', (b, names, 'str', 'constructor'), rule=RULE)
        yield Scenario('numbers', 'in_range', (b, ('pattern',), 'int', 'constructor'), rule=RULE)
        yield Scenario('numbers', 'in_range', (b, ('enumeration',), 'int', 'constructor'), rule=RULE)
