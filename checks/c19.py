import itertools

from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of dispatching with middleware lists of length 0 to 3 (4 in the thorough tier), each middleware passing on, '
    'answering itself, replacing the answer, replacing the request, calling the next twice, raising or catching, the handler answering or '
    'raising; the sequence of calls and the objects handed on are compared with a reference of the rule. The exception middlewares are run '
    'around every kind of exception and result.')
ASSUMPTIONS = ['longer middleware lists repeat the rule of the ones analysed']
RULE = 'middlewares nest in the order given; exceptions become faults only by choice'
WAYS = ('pass', 'answer', 'replace', 'swap', 'twice', 'raise', 'break', 'catch')


def scenarios(tier):
    for n in range(0, 5 if tier == 'thorough' else 4):
        for i, b in enumerate(itertools.product(WAYS, repeat=n)):
            if n == 3 and tier != 'thorough' and i % 3 or n == 4 and i % 23:
                continue
            for h in ('ok', 'plain', 'raise', 'break') if n < 3 else ('ok', 'raise', 'break'):
                yield Scenario('http', 'stacked', ('soap11', n, b + (h,)), rule=RULE, setup=('build_stacked', 'soap11', n, b + (h,)))
    for b in (('pass', 'pass', 'ok'), ('catch', 'swap', 'raise'), ('replace', 'twice', 'ok'), ('answer', 'pass', 'ok'), ('pass', 'raise', 'ok')):
        yield Scenario('http', 'stacked', ('soap11', 2, b), rule=RULE, setup=('build_stacked_busy', 'soap11', 2, b), label=f'stacked{b} later')
    for when in ('none', 'given', 'used'):
        yield Scenario('http', 'altered', ('soap11', when), rule=RULE)
    for v in ('soap11', 'soap12'):
        for w in ('soap', 'value', 'plain', 'own', 'xml', 'empty', 'two', 'exit', 'result'):
            for t in (None, True, False):
                yield Scenario('http', 'to_fault', (v, w, t), rule=RULE)
    for w in ('soap', 'value', 'plain', 'own', 'xml', 'empty', 'two', 'exit', 'result'):
        for c in ('default', 'value', 'own', 'none', 'soap'):
            for t in (True, False):
                yield Scenario('http', 'logged', (w, c, t), rule=RULE)
    yield Scenario('http', 'logger_arguments', rule=RULE)
