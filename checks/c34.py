from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of reading and rendering with a schema over documents with undetermined content: libxml2 validation is an '
    'oracle that may accept or refuse each document; the analysis records which document is validated against which schema, compares the '
    'source of that schema with the document generated for it, follows both verdicts to the end, and repeats it after earlier uses of the '
    'same schema, of another one, or of the same one before it was changed.')
ASSUMPTIONS = ['libxml2 decides validity; the schema it is given and what becomes of its verdict is what is analysed']
RULE = 'with a schema: validate once against what it declares now; refuse or go on as without'


def scenarios(tier):
    for given in 'schema', 'compiled':
        for earlier in 'nothing', 'none', 'same schema', 'other schema', 'other class', 'changed', 'renamed':
            if given == 'compiled' and earlier in ('changed', 'renamed'):
                continue
            yield Scenario('validated', 'read', (given, earlier), rule=RULE)
    for how in 'plain', 'namespace', 'qualified', 'compact', 'second':
        yield Scenario('validated', 'written', (how,), rule=RULE)
