from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of accept, xmlvalue and pythonvalue composed in sequence: date/time components, zone offset, integers and texts '
    'are unknowns (zone domain); written text is a concatenation of padded fields whose provenance is compared with the required '
    'lexical form, and the reader is interpreted on exactly that text.')
ASSUMPTIONS = ['zone offsets are whole minutes between -14:00 and +14:00 (the XSD range)', 'days 29 to 31 follow the same code paths as 1 to 28',
               'a date-time or time without a zone may be read as UTC']
RULE = 'read(write(v)) = v and write(v) has the XSD lexical form'


def scenarios(tier):
    for k in (None, 'utc', 'fixed', 'seasonal'):
        yield Scenario('lexical', 'write_date', (k, 'XSDDate'), rule=RULE)
        yield Scenario('lexical', 'write_datetime', (k,), rule=RULE)
        yield Scenario('lexical', 'write_time', (k,), rule=RULE)
    yield Scenario('lexical', 'write_date', (None, 'date'), rule=RULE)
    for n in ('DateTime', 'Time'):
        yield Scenario('lexical', 'accept_text', (n,), rule='text is read as the value it denotes')
    for s in ('', '-'):
        for z in (None, 'Z', 'hours', 'full'):
            yield Scenario('lexical', 'read_date', (s, z), rule='text is read as the value it denotes or refused')
    yield Scenario('lexical', 'boolean_write', rule=RULE)
    yield Scenario('lexical', 'boolean_read', rule='lexical forms of xs:boolean')
    yield Scenario('lexical', 'max_occurs', rule=RULE)
    for b, lo, hi in (('Integer', None, None), ('NonNegativeInteger', 0, None), ('NonPositiveInteger', None, 0), ('NegativeInteger', None, -1),
                      ('PositiveInteger', 1, None), ('Long', -2 ** 63, 2 ** 63 - 1), ('Int', -2 ** 31, 2 ** 31 - 1), ('Short', -2 ** 15, 2 ** 15 - 1),
                      ('Byte', -128, 127), ('UnsignedLong', 0, 2 ** 64 - 1), ('UnsignedInt', 0, 2 ** 32 - 1), ('UnsignedShort', 0, 65535),
                      ('UnsignedByte', 0, 255)):
        yield Scenario('lexical', 'integer', (b, lo, hi), rule=RULE)
