from .dispatching import D, VERSIONS

EXPLANATION = (
    'Abstract interpretation of a whole dispatch, from request bytes to response, over abstract envelopes: headers and bodies of every shape '
    '(absent, empty, nil, text, comments before and after, several parts), undetermined text, strict and lenient headers, header declared by '
    'the method, the service or nobody, action given or not. Schema validation is an oracle that may accept or refuse each element; the '
    'analysis records what was validated against what, what the handler was given, and in which order, on every trace.')
ASSUMPTIONS = ['libxml2 validation is an oracle whose verdict depends on the element only',
               'one service with four operations stands for services; the code under analysis only iterates over operations']
RULE = 'validate every part, then parse what was validated, then call the handler once'
BODIES = ('absent', 'empty', 'comment', 'nil', 'text', 'comment+', '+comment')


def scenarios(tier):
    for v in VERSIONS:
        for strict in (True, False):
            for own, svc in ((True, True), (False, True), (False, False), (True, False)):
                for action in (True, False):
                    yield D('received', v, strict, 'present', ('token', 'wsa'), 'present', action, (own, svc), rule=RULE, strict=strict, own=own, svc=svc)
        yield D('received', v, True, 'present', ('token', 'wsa'), 'present', False, (True, False), own=True, rule=RULE, busy=True)
        yield D('received', v, False, 'present', ('token', 'wsa'), 'present', True, (False, True), strict=False, svc=True, rule=RULE, busy=True)
        for parts in (('wsa', 'token'), ('wsa', 'wsa'), ('plain', 'token'), ('token', 'wsa', 'plain')):
            for strict in (True, False):
                yield D('received', v, strict, 'present', parts, 'present', True, (True, False), own=True, strict=strict, rule=RULE)
        for how in 'handled', 'by another', 'touched':
            yield D('again', v, how, own=True, rule=RULE)
        for b in 'comment+', '+comment':
            yield D('received', v, True, 'absent', (), b, True, (True, False), own=True, rule=RULE)
        for h in BODIES:
            for strict in (True, False):
                yield D('received', v, strict, h, ('token',), 'present', True, (True, False), own=True, strict=strict, rule=RULE)
        for w in 'two', 'two bodies', 'two headers', 'attributes', 'nil field', 'nil root':
            yield D('noise', v, w, rule=RULE)
        for h in ('present', '+comment', 'comment+'):
            for parts in (('token', 'token', 'wsa'), ('wsa', 'wsa'), ('plain', 'token', 'wsa')):
                for b in ('present', 'comment+'):
                    yield D('received', v, True, h, parts, b, False, (True, True), own=True, svc=True, rule=RULE, thorough=True)
