from .dispatching import D, VERSIONS
from .c13 import BODIES

EXPLANATION = (
    'Abstract interpretation of dispatching over malformed content (the parser oracle refuses it), well-formed documents that are no '
    'envelopes, envelopes with missing, empty, nil or comment-only bodies and headers of every shape, odd children, attributes and nil '
    'marks, values that pass validation but that the declared Python type may not hold, and unknown operations; every trace has to end in a '
    'response with the client fault of the version and without a call of the handler - or with the handler called, and no exception may leave '
    'the dispatcher on any trace.')
ASSUMPTIONS = ['libxml2 validation is an oracle that may accept or refuse any element',
               'fault texts may hold any character; serialising one XML can not hold raises ValueError as lxml does']
RULE = 'every refused request ends in a client fault; nothing escapes; no handler runs'


def scenarios(tier):
    for v in VERSIONS:
        for b in BODIES:
            for action in (True, False):
                yield D('received', v, True, 'absent', (), b, action, (True, False), own=True, rule=RULE)
        for b in BODIES:
            yield D('received', v, True, 'absent', (), b, False, (True, False), own=True, rule=RULE, busy=True)
        for h in BODIES:
            for strict in (True, False):
                yield D('received', v, strict, h, ('token',), 'present', True, (True, False), own=True, strict=strict, rule=RULE)
        for f in 'value', 'num', 'amount', 'when', 'flag', 'at', 'clock', 'count', 'ratio':
            yield D('typed_values', v, f, own=True, rule=RULE)
        for f in 'amount', 'count', 'at', 'day', 'ratio', 'token':
            yield D('lenient', v, f, own=True, strict=False, rule=RULE)
        for s in True, False:
            yield D('malformed', v, strict=s, rule=RULE)
        yield D('foreign', v, rule=RULE)
        for w in 'fault first', 'nil field', 'nil root', 'two', 'message', 'two bodies', 'two headers', 'attributes':
            yield D('noise', v, w, rule=RULE)
        for q in True, False:
            yield D('routing', v, 'unknown', q, 'any', rule=RULE)
        for root in 'lonely', 'orphan', 'unknown':
            yield D('routing', v, root, True, 'none', rule=RULE)
        for h in ('present', '+comment', 'comment+', 'nil'):
            for parts in (('token', 'token', 'wsa'), ('wsa', 'wsa'), ('plain', 'token', 'wsa')):
                for b in BODIES:
                    yield D('received', v, True, h, parts, b, False, (True, True), own=True, svc=True, rule=RULE, thorough=True)
