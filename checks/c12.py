from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of rendering for every combination of element form default, own namespace, schema of the containing type, schema '
    'of the nested type and namespace given by the caller, for elements, lists, groups and attributes at two depths.')
ASSUMPTIONS = ['deeper nesting repeats the rule of the second level']
RULE = 'qualified iff form default is qualified and a namespace applies: own, else schema of the type, else the caller\'s'


def scenarios(tier):
    yield Scenario('model', 'namespaces_of', ('qualified',), rule=RULE)
    yield Scenario('model', 'namespaces_of', ('unqualified',), rule=RULE)
    yield Scenario('model', 'xml_namespace', rule=RULE)
    yield Scenario('model', 'schema_by_element', rule=RULE)
