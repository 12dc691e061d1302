from itertools import product

from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of generate_wsdl on service descriptions with unknown name, location, namespace, operation names, actions and '
    'part names, for every combination of input and output kind (element or class, of the first, another or an imported schema, or a built-in '
    'type), style and SOAP version, with zero to four methods and one to three schemas. The resulting document tree is walked: every '
    'reference (port, binding, port type, message, part) is resolved through the prefixes in scope and must lead to exactly the declared '
    'component.')
ASSUMPTIONS = ['operation names differ from each other and are XML names', 'a method declares its input and its output',
               'the schemas of a service have different target namespaces, as have their elements and types different names',
               'SOAP headers are not part of the generated document']
RULE = 'the WSDL describes exactly the methods of the service'
KINDS = (('element', 0), ('type', 0), ('far element', 0), ('far type', 0), ('builtin', 'Int'), ('builtin', 'NMTOKEN'))
SECOND = (('element', 1), ('type', 1))


def scenarios(tier):
    for v in ('soap11', 'soap12'):
        for same in (False, True):
            for n in (1, 3):
                yield Scenario('generate', 'wsdl', (v, (), n, same), rule=RULE)
                i, o = KINDS[n - 1], KINDS[n]
                yield Scenario('generate', 'wsdl', (v, ((i, o, None), (o, i, 'RPC')), n, same, True), rule=RULE)
        for i, o in product(KINDS, KINDS):
            for style in (None, 'DOCUMENT', 'RPC'):
                yield Scenario('generate', 'wsdl', (v, ((i, o, style),), 1, False), rule=RULE)
        for i, o in product(KINDS + SECOND, KINDS + SECOND):
            k = KINDS.index(i) if i in KINDS else 3
            many = ((o, i, None), (i, i, 'RPC'), (KINDS[k % 4], o, 'DOCUMENT'), (i, o, None))
            yield Scenario('generate', 'wsdl', (v, many[:2 + k % 3], 2 + k % 2, k % 2 == 0), rule=RULE)
            if tier == 'thorough':
                for n in (2, 3):
                    for same in (False, True):
                        yield Scenario('generate', 'wsdl', (v, many, n, same), rule=RULE)
                yield Scenario('generate', 'wsdl', (v, many * 3, 3, False), rule=RULE)
