from .framework import Scenario

EXPLANATION = (
    'The class declarations of wsdl11 and wsdl12 are evaluated abstractly (soapfish.xsd metaclass included) and compared class by class and '
    'field by field: XML name, kind, occurrence, use, default, type, namespace, and that every type belongs to its own model. Documents of '
    'unknown texts are read and written with both models; the version and model choosing functions are interpreted on every binding shape.')
ASSUMPTIONS = ['WSDL 1.1 names and namespaces as given in the rule tables']
TECHNIQUE = 'abstract evaluation of the class declarations, compared field by field; abstract interpretation of reading and writing'
CLASSES = ('Types', 'Part', 'Message', 'Import', 'Input', 'Output', 'Fault', 'Operation', 'PortType', 'Binding', 'Port', 'Service',
           'Definitions', 'SOAP_Binding', 'SOAP_Operation', 'SOAP_HeaderFault', 'SOAP_Header', 'SOAP_Body', 'SOAP_Fault', 'SOAP_Address')
RULE = 'the two models agree but for the namespace of the binding'


def scenarios(tier):
    for c in CLASSES:
        yield Scenario('models', 'models_agree', (c,), rule=RULE)
    yield Scenario('models', 'schemas_agree', rule=RULE)
    yield Scenario('models', 'model_choice', rule='a binding namespace selects its model')
    kinds = ('11', '12', 'http', 'comment', 'port')
    for a in kinds:
        yield Scenario('models', 'version_of', ((a,),), rule='the version of a document is that of its binding')
        for b in kinds:
            yield Scenario('models', 'version_of', ((a, b),), rule='the version of a document is that of its binding')
    yield Scenario('models', 'version_of', ((),), rule='the version of a document is that of its binding')
    for v in ('11', '12'):
        yield Scenario('models', 'read_document', (v,), rule='every part of a document is read under the right name')
        yield Scenario('models', 'write_document', (v,), rule='every part of a document is written under the right name')
