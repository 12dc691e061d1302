import itertools

from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of the accept methods of the numeric types for every declaration shape (bounds, enumeration, pattern, '
    'digit facets; constructor or subclass) and every kind of incoming value (int, float, Decimal, text) with unknown numbers in '
    'a zone domain and unknown decimal shapes (sign, digit counts); a trace must accept exactly when the facet predicates hold.')
ASSUMPTIONS = ['NaN and infinities are outside the ordering domain', 'numbers are compared exactly (no binary rounding)',
               'digit counts are those of the decimal numeral str() gives; numerals in exponent form are not considered']
NAMES = ('minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive', 'enumeration', 'pattern')
RULE = 'accept(v) returns the number iff it satisfies every declared facet, else raises ValueError'


def scenarios(tier):
    sizes = (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3, 4)
    for n in sizes:
        for names in itertools.combinations(NAMES, n):
            for kind in ('int', 'float', 'Decimal', 'str'):
                for how in ('constructor', 'subclass'):
                    yield Scenario('numbers', 'accepts', ('Decimal', names, kind, how), rule=RULE)
            for kind in ('int', 'str'):
                for how in ('constructor', 'subclass', 'mixed'):
                    yield Scenario('numbers', 'accepts', ('Integer', names, kind, how), rule=RULE)
    for n in (1, 2):
        for names in itertools.combinations(NAMES[:-1], n):
            for base in ('Decimal', 'Integer', 'Double', 'Float'):
                for how in ('constructor', 'subclass'):
                    yield Scenario('numbers', 'as_text', (base, names, how), rule=RULE)
    for names in ((), ('minInclusive',), ('maxExclusive', 'enumeration')):
        for base in ('Decimal', 'Integer', 'Double'):
            yield Scenario('numbers', 'accepts', (base, names, 'str', 'constructor', 'pythonvalue'), rule=RULE)
    for base in ('Double', 'Float'):
        for n in NAMES:
            for kind in ('int', 'float', 'Decimal', 'str'):
                for how in ('constructor', 'subclass'):
                    yield Scenario('numbers', 'accepts', (base, (n,), kind, how), rule=RULE)
    for names in (('totalDigits',), ('fractionDigits',), ('totalDigits', 'fractionDigits')):
        for how in ('constructor', 'subclass', 'mixed'):
            for kind in ('int', 'float', 'Decimal', 'str'):
                yield Scenario('numbers', 'digits', ('Decimal', names, kind, how), rule=RULE)
            if names == ('totalDigits',):
                for kind in ('int', 'str'):
                    yield Scenario('numbers', 'digits', ('Integer', names, kind, how), rule=RULE)
