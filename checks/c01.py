import itertools

from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of the accept methods of the string types on every declaration shape (which facets, white space '
    'mode, constructor or subclass) with unknown facet values and an unknown text; every trace must accept exactly when '
    'the facet predicates over the normalised text hold on that trace, and return the normalised text.')

NAMES = ('pattern', 'enumeration', 'length', 'minLength', 'maxLength')
WS = (None, 'preserve', 'replace', 'collapse')
RULE = 'accept(v) returns normal form of v iff all declared facets hold for it, else raises ValueError'


def scenarios(tier):
    sizes = (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3, 4, 5)
    for how in ('constructor', 'subclass', 'mixed'):
        for w in WS:
            for n in sizes:
                for names in itertools.combinations(NAMES, n):
                    if how == 'mixed' and len(names) + (w is not None) < 2:
                        continue
                    yield Scenario('strings', 'accepts', (names, w, how), rule=RULE)
    for base in ('AnyURI', 'QName', 'NMTOKEN', 'NMTOKENS', 'Base64Binary', 'Duration'):
        for n in NAMES:
            for how in ('constructor', 'subclass'):
                yield Scenario('strings', 'accepts', ((n,), 'collapse' if how == 'subclass' else None, how, base), rule=RULE)
    for w in WS:
        for names in ((), ('pattern',), ('maxLength', 'enumeration')):
            yield Scenario('strings', 'stored', (names, w, 'constructor'), rule='fields store the normal form')
