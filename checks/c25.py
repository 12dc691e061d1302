from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of generate_xsd (and of the schema embedded in a WSDL) on schemas declared in every supported way, compared with '
    'the declaration by walking the resulting tree: references from every position to each of the 27 built-in types and to user types, '
    'facets alone and together with unknown values (0 included) declared on a class or in place for elements, attributes, lists and global '
    'elements, fields with unknown XML names and unknown bounds, inherited fields, container indicators, components, imports and includes '
    'with unknown names, types of imported schemas, and the set of documents the validator of a service is built from.')
ASSUMPTIONS = ['xsd.Ref is not serialized (LIMITATIONS.md)', 'simple types derive from one of the 27 built-in types; xsd.AnyType cannot be used for fields',
               'an empty pattern or an empty enumeration is no facet', 'names of classes differ by more than the case of their first letter',
               'the schemas given to the validator have different target namespaces']
RULE_TYPES = 'references name the types they mean'
RULE_FACETS = 'every declared facet is emitted with its value, and no other'
RULE_FIELDS = 'fields appear under their XML name with bounds and nillability, in order'
RULE_PARTS = 'every component, import and include appears once'
RULE_VALID = 'messages are validated against the generated documents'
BUILTIN = ('String', 'Boolean', 'Date', 'DateTime', 'Time', 'Decimal', 'Double', 'Float', 'Integer', 'NonNegativeInteger', 'NonPositiveInteger',
           'NegativeInteger', 'PositiveInteger', 'Long', 'Int', 'Short', 'Byte', 'UnsignedLong', 'UnsignedInt', 'UnsignedShort', 'UnsignedByte',
           'AnyURI', 'QName', 'NMTOKEN', 'NMTOKENS', 'Base64Binary', 'Duration')
STRING_FACETS = ('enumeration', 'pattern', 'length', 'minLength', 'maxLength', 'whiteSpace')
BOUNDS = ('minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive')
PLACES = ('class', 'element', 'attribute', 'list', 'global', 'own class in place')

KINDS = (('element', 'list', 'attribute'), ('list', 'element', 'inline', 'element'), ('attribute', 'attribute', 'element', 'attribute', 'list'),
         ('element', 'inline', 'attribute', 'element'), ('element',), ('list',), ('attribute',), ('inline',), ())


def scenarios(tier):
    for t in BUILTIN:
        yield Scenario('generate', 'builtin', (t,), rule=RULE_TYPES)
    for t in ('String', 'AnyURI', 'NMTOKEN'):
        for place in PLACES:
            for names in [(f,) for f in STRING_FACETS] + [STRING_FACETS, ()]:
                yield Scenario('generate', 'facets', (t, names, place, 'int'), rule=RULE_FACETS)
            yield Scenario('generate', 'facets', (t, ('length', 'minLength', 'maxLength'), place, 'zero'), rule=RULE_FACETS)
    for t in ('Decimal', 'Double', 'Integer', 'Int', 'PositiveInteger'):
        fs = ('enumeration', 'pattern') + BOUNDS + (() if t == 'Double' else ('fractionDigits', 'totalDigits'))
        for place in PLACES:
            for names in [(f,) for f in fs] + [fs, ()]:
                if place != 'class' and t not in ('Decimal','Double') and 'fractionDigits' in names:
                    continue  # always 0 for integers
                for form in ('int', 'zero', 'decimal') if t in ('Decimal', 'Double') else ('int', 'zero'):
                    yield Scenario('generate', 'facets', (t, names, place, form), rule=RULE_FACETS)
    for ind in (None, 'Sequence', 'Choice', 'All'):
        for kinds in KINDS:
            for inh in range(len(kinds) + 1):
                for varied in range(max(1, len(kinds))):
                    tags = (inh + varied + len(kinds)) % 2 == 0
                    for t in (False, True) if tier == 'thorough' or len(kinds) == 1 else (tags,):
                        yield Scenario('generate', 'fields', (kinds, ind, t, inh, varied), rule=RULE_FIELDS)
    for where in ('xsd', 'wsdl', 'program'):
        for form in (None, 'QUALIFIED', 'UNQUALIFIED'):
            for s, c, e in ((0,0,0),(1,0,1),(0,1,2),(2,3,3),(3,2,4)):
                for subst in (False, True):
                    yield Scenario('generate', 'parts', (s,c,e,form,subst,where), rule=RULE_PARTS)
    for place in ('attribute', 'list', 'element'):
        yield Scenario('generate', 'imported_types', (place,), rule=RULE_TYPES)
    for count in (1, 2, 3):
        for twice in (False, True):
            yield Scenario('generate', 'validator', (count, twice), rule=RULE_VALID)
