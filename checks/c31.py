from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of fill_header with unknown header values, with and without source, on fresh and filled headers; the message id '
    'must come from a uuid drawn in that call; plus the headers a service gets and the XML names of the header fields.')
ASSUMPTIONS = ['uuid1/uuid4 values are unique (trusted library)']


def scenarios(tier):
    for source in ('none', 'plain', 'complete', 'empty action'):
        for filled in (True, False):
            yield Scenario('lookup', 'addressing', (source, filled), rule='fresh id, anonymous destination, related to the request')
    for use in (None, False, True):
        for i in (True, False):
            for o in (True, False):
                yield Scenario('lookup', 'addressing_service', (use, i, o), rule='addressing headers unless declared')
    yield Scenario('lookup', 'addressing_names', rule='written and read under the names of WS-Addressing')
