#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })


X = 'soapfish/xsd.py'
D = 'soapfish/soap_dispatch.py'

prop('C01', 'String facets are enforced, all of them, on the normalised value',
     'A string-typed value is accepted exactly when, after the declared whitespace handling (preserve/none keeps it, replace turns tabs and '
     'newlines into spaces, collapse also squeezes runs and strips both ends), it satisfies every declared facet: enumeration, pattern '
     '(the entire value, alternations included), length, minLength and maxLength, a facet of 0 included. The normalised value is what is '
     'returned and stored, anything else raises ValueError, and it makes no difference whether a facet is given to the constructor or '
     'declared on a subclass.',
     ['inputs', 'configurations'], 'every value and every combination of declared facets, in both places of declaration',
     'Tests sample one facet at a time with a few strings; the property is about every combination and every value.',
     [X], [('String.accept', X + ':String.accept'), ('String.__init__', X + ':String.__init__'),
           ('whitespace handling', X + ':String._clean_whitespace')])
prop('C02', 'Numeric facets are enforced on every numeric value',
     'A value of a Decimal, Double, Float or Integer type is accepted exactly when it satisfies every declared bound (minInclusive, '
     'minExclusive, maxInclusive, maxExclusive), enumeration and pattern, and does not exceed declared totalDigits/fractionDigits (the sign '
     'and the decimal point are not digits); anything else raises ValueError. This holds whether the value arrives as a number, a '
     'decimal.Decimal or text, and whether a facet is given to the constructor or declared on a subclass, as a number or as its text.',
     ['inputs', 'configurations'], 'every value form and every combination of declared numeric facets',
     'Tests use a handful of literals; boundary values, value forms and facet combinations are unbounded.',
     [X], [('Decimal._check_restrictions', X + ':Decimal._check_restrictions'), ('Decimal.accept', X + ':Decimal.accept'),
           ('Integer.accept', X + ':Integer.accept'), ('Decimal.__init__', X + ':Decimal.__init__')])
prop('C03', 'Built-in integer types accept exactly their XML Schema value range',
     'Each built-in integer type (Integer, NonNegative/NonPositive/Negative/PositiveInteger, Long, Int, Short, Byte and the Unsigned '
     'variants) accepts an integer exactly when it lies in the range XML Schema defines for that type. Bounds given by the user on such a '
     'type apply as well: they narrow the range and are never dropped.',
     ['inputs', 'configurations'], 'every integer value for every built-in integer type, with and without user-given bounds',
     'Tests check a few boundary values of a few types; nothing covers user bounds on the sized types.',
     [X], [('overrides tables', X + ':Integer.overrides and subclasses'), ('Integer.__init__', X + ':Integer.__init__')])
prop('C04', 'What a simple type writes is its XSD lexical form and reads back unchanged',
     'For every accepted value of Boolean, Date, DateTime, Time, MaxOccurs and the integer types, the text written carries every component '
     'of the value (sign-correct zone offset in +hh:mm form, sub-second part, four-digit year) and reading that text yields the same value '
     '(a date-time or time without a zone may be read as UTC). '
     'Reading accepts the lexical forms XML Schema allows for booleans (true, false, 1, 0) with their meaning, and text that cannot be '
     'represented raises ValueError rather than yielding another value.',
     ['inputs'], 'every accepted value of the listed types, and every text in their lexical space',
     'Round trips are sampled for a few values with a few zones; negative offsets, microseconds, early years are not.',
     [X, 'soapfish/utils.py', 'soapfish/xsd_types.py'],
     [('xmlvalue/pythonvalue pairs', X), ('timezone_offset_to_string', 'soapfish/utils.py:timezone_offset_to_string'),
      ('XSDDate', 'soapfish/xsd_types.py:XSDDate')])
prop('C05', 'Simple types reject values of the wrong type with ValueError and pass None',
     'Every concrete simple type accepts None as None, and a value outside the Python types it documents is refused with ValueError; it is '
     'never stored and never surfaces as another exception. A value that is accepted is one its writer can render.',
     ['inputs'], 'every Python value, by type, offered to every built-in simple type',
     'Tests offer one or two wrong types per class.',
     [X], [('accept methods', X)])
prop('C06', 'Fields only ever hold values their declared type accepted',
     'Whichever way a field of a complex type is set - constructor keyword, attribute assignment, parsing a document - the value first goes '
     'through the acceptance check of the declared type and what is stored is what that check returned. A refused value leaves the object '
     'unchanged and raises, nil is stored only where the field is nillable, and a name that is not a declared field is refused.',
     ['inputs', 'histories'], 'every field kind, every value, every way of assigning',
     'Tests set a few fields of a few classes; the guarantee is for every class and every assignment.',
     [X], [('ComplexType.__setattr__', X + ':ComplexType.__setattr__'), ('Element.accept', X + ':Element.accept'),
           ('ComplexType.__init__', X + ':ComplexType.__init__'), ('Element.parse', X + ':Element.parse')])
prop('C07', 'Rendering emits every set field once, in declaration order, under its tag',
     'Rendering a complex object emits, for each declared element field with a value, exactly one child (one per item for lists, in list '
     'order) named by the declared tag name or else the field name, in declaration order with inherited fields first, and each set attribute '
     'under its name; unset optional fields emit nothing. A required attribute without a value is refused.',
     ['inputs', 'programs'], 'every user-declared class and every assignment of its fields',
     'Tests render a few fixed classes; order, inheritance and name combinations are open-ended.',
     [X], [('ComplexType.render', X + ':ComplexType.render'), ('ComplexTypeMetaInfo ordering', X + ':ComplexTypeMetaInfo'),
           ('Element/ListElement/Attribute.render', X)])
prop('C08', 'Parsing reads back every field that rendering writes',
     'Parsing the document rendered from an object yields an object of the same class with the same field values, for elements, attributes, '
     'lists, nested objects, inherited fields and fields whose XML name differs from the Python name. Comments and processing instructions '
     'between elements are ignored, unknown elements do not disturb known ones, and parsing creates a fresh object each time.',
     ['inputs', 'programs'], 'every user-declared class, every assignment of its fields, every placement of comments/PIs',
     'Tests parse some fixed documents; names differing between Python and XML and interleaved PIs are not covered.',
     [X], [('ComplexType.parse_xmlelement', X + ':ComplexType.parse_xmlelement'), ('_is_matching_element', X),
           ('Attribute.parse', X + ':Attribute.parse')])
prop('C09', 'xsi:nil is written for nil values, read back as nil, and only for nillable fields',
     'A nil value in a nillable element or list renders as an empty element carrying xsi:nil="true", and an element is read as nil exactly '
     'when its xsi:nil is true ("true" or "1"); xsi:nil="false" is an ordinary value. A nil value is refused for elements, attributes and '
     'list items not declared nillable.',
     ['inputs'], 'every nillable/non-nillable element, list and attribute; every value of the nil attribute',
     'Tests only use xsi:nil="true" on a single element and list.',
     [X], [('Element.render/parse', X), ('ListElement.render/parse', X), ('TypedList.append', X + ':TypedList')])
prop('C10', 'List fields hold only accepted items and respect declared occurrence bounds',
     'Every item of a list field, whether appended, inserted, extended, set by index, parsed or given as a whole list, has passed the item '
     "type's acceptance check. A list longer than the declared maxOccurs or shorter than the declared minOccurs is refused at the latest "
     'when it is rendered, and one within the bounds is not refused. Text, bytes, mappings and things which cannot be iterated over are not '
     'taken for a list of items.',
     ['inputs', 'histories'], 'every list mutation history and every declared bound',
     'Tests append a handful of items.',
     [X], [('TypedList', X + ':TypedList'), ('ListElement.render', X + ':ListElement.render'), ('ListElement.accept', X + ':ListElement.accept')])
prop('C11', 'Instances never share mutable state',
     'Two objects of the same class created independently share no mutable state: appending to a list field or setting a nested or group '
     'field of one never changes the other, and creating or filling objects never changes the class or the declared defaults.',
     ['histories'], 'every interleaving of operations on two instances of any class',
     'A test would have to observe aliasing for every field kind and every operation.',
     [X], [('ComplexType.__new__', X + ':ComplexType.__new__'), ('empty_value', X)])
prop('C12', 'Child elements are qualified exactly as the schema declares',
     'A rendered child element carries a namespace exactly when element form default is qualified and a namespace applies; the namespace is '
     "the element's own if it declares one, else that of the schema its complex type belongs to, else the one passed by the caller; "
     'attributes are never qualified. Elements and list elements follow the same rule at every nesting depth.',
     ['configurations', 'programs'], 'every combination of form default, element namespace, schema namespace, at any nesting',
     'Tests fix one or two namespace combinations.',
     [X], [('Element.render', X), ('ListElement.render', X), ('ComplexType.render', X), ('Schema.__init__', X + ':Schema.__init__')])
prop('C13', 'A service handler runs only after validation, once, with the parsed input',
     "The dispatcher invokes a method's handler only for requests whose header and body passed schema validation, at most once per request, "
     'and passes it the object parsed from exactly the validated body element (comments do not count as body content). The request the '
     'handler sees carries the selected method, the dispatcher and the parsed SOAP header (as declared by the method, else by the service).',
     ['inputs', 'histories'], 'every request document, header/body combination and middleware chain',
     'Tests send a few fixed envelopes.',
     [D], [('_prepare_request', D + ':SOAPDispatcher._prepare_request'), ('call_method', D + ':call_method')])
prop('C14', 'Malformed or invalid requests yield a client fault, never an exception',
     'For every request body that is not well-formed, lacks a SOAP body, has an empty SOAP body, fails schema validation of header or body, or '
     'names no known operation, the dispatcher returns a SOAP fault response with the client fault code, HTTP status 500 and the SOAP content '
     'type; no exception escapes and no handler runs.',
     ['inputs'], 'every malformed or invalid request document, for both SOAP versions',
     'Tests cover a few malformed envelopes; empty bodies and comment-only bodies are not covered.',
     [D], [('_parse_soap_content', D), ('_prepare_request', D), ('handle_soap_request', D)])
prop('C15', 'Handler results become exactly one correct envelope',
     "A handler's result is rendered as the SOAP body under the method's declared output element, with the response header it supplied and "
     'HTTP status 200 unless the handler chose another; a SOAPError returned, raised or wrapped in a response becomes a fault carrying its '
     'code and message with status 500. Both carry the content type of the SOAP version, whether or not a middleware answered before an '
     'operation was selected.',
     ['inputs', 'histories'], 'every kind of handler or middleware result, both SOAP versions',
     'Tests cover plain results and one fault; declared output types and early middleware answers are not covered.',
     [D, 'soapfish/core.py'], [('handle_soap_request', D), ('SOAPResponse', 'soapfish/core.py:SOAPResponse')])
prop('C16', 'Each request is dispatched to the operation it names',
     'If the request carries a SOAP action, the operation with exactly that action handles it and an unknown action is refused; otherwise '
     "the operation whose input element is the body's root element handles it, or failing that the one whose input is the head of that "
     "element's substitution group; otherwise the request is refused with a client fault.",
     ['inputs', 'configurations'], 'every action/root element pair against every service',
     'Tests use services with one or two operations.',
     [D, 'soapfish/soap11.py', 'soapfish/soap12.py'], [('_find_handler_for_request', D), ('determine_soap_action', 'soapfish/soap11.py')])
prop('C17', 'HTTP requests are routed and answered with the right status',
     'A GET asking for wsdl or singleWsdl returns the WSDL with host and scheme filled in, a GET asking for xsd returns the schema of exactly '
     'that name, a POST is handled as SOAP; an unknown schema answers 404, every other request answers 400, and successful answers 200. The '
     'status line given to the HTTP layer is the status of the response.',
     ['inputs'], 'every request method and query string',
     'No existing test looks at the 400/404 status or at unknown schemas.',
     [D, 'soapfish/core.py'], [('dispatch', D + ':SOAPDispatcher.dispatch'), ('handle_xsd_request', D), ('SOAPResponse', 'soapfish/core.py')])
prop('C18', 'Every registered hook runs for its own event, and only there',
     'A hook registered as <kind>-request or <kind>-response (kind soap, wsdl or xsd) is called exactly once for each request of that kind, '
     'and what it returns replaces the request or response from there on; a result of the wrong class is refused with TypeError. Names that '
     'are not exactly one of the six hook names are refused when the dispatcher is built.',
     ['configurations', 'inputs'], 'every hook registration and request kind',
     'Only the two soap hooks are exercised.',
     [D], [('_call_hook', D + ':SOAPDispatcher._call_hook'), ('__init__', D + ':SOAPDispatcher.__init__')])
prop('C19', 'Middlewares wrap the handler in order; exceptions become faults only by choice',
     'Middlewares are entered in the order given, each at most once per call of its next_call, innermost being request preparation plus '
     'handler; a middleware that does not call next prevents everything inside it. The exception middleware turns a SOAPError into that '
     'error and any other exception into a server fault naming it, passing ordinary results through; the logging middleware logs exactly the '
     'configured exceptions and re-raises them unchanged. What the handler returns reaches the innermost middleware as a SOAPResponse.',
     ['histories', 'configurations'], 'every middleware list and every behaviour of handler and middlewares',
     'Tests use one middleware at a time.',
     [D, 'soapfish/middlewares.py'], [('middleware', D + ':SOAPDispatcher.middleware'), ('ExceptionToSoapFault', 'soapfish/middlewares.py')])
prop('C20', 'WSGI, Flask and Django adapters forward requests and responses unchanged',
     'Each adapter hands the dispatcher the complete request body and environment and returns to its framework the status, every header and '
     'the body of the dispatcher response, unchanged, for every response the dispatcher can produce; the body given to a WSGI server is bytes. '
     'The Django environment finds a header under its plain or HTTP_ name, and the Django view takes requests which carry no CSRF token.',
     ['inputs'], 'every request and every dispatcher response',
     'Tests send one echo request per framework.',
     [D, 'soapfish/flask_.py', 'soapfish/django_.py'], [('WsgiSoapApplication', D), ('flask_dispatcher', 'soapfish/flask_.py'),
                                                         ('django_dispatcher', 'soapfish/django_.py')])
prop('C21', 'Serving requests never touches the network or the file system',
     'Nothing reachable from building or running a dispatcher opens a network connection or a file; schema validation resolves references '
     'only to the schemas given and refuses any other location. Only the client stub and the code generators may read remote or local '
     'documents.',
     ['inputs', 'programs'], 'every path from the dispatcher entry points; every schema location',
     'Absence of an effect on every path cannot be sampled.',
     [D, 'soapfish/py2xsd.py', 'soapfish/utils.py'], [('SchemaResolver.resolve', 'soapfish/py2xsd.py:schema_validator'),
                                                      ('open_document', 'soapfish/utils.py:open_document')])
prop('C22', 'SOAP 1.1 and 1.2 offer the same interface and faults read back as written',
     'Both SOAP versions provide the same operations used by dispatcher and client; a fault built from code, message and actor, or a response '
     'with header and body, is placed in an Envelope/Body of that version and the client-side reader of the same version recovers the same '
     'code, message, actor, header and body. The action a client announces is the action the server of that version reads.',
     ['inputs', 'configurations'], 'every code/message/actor/header/action in both versions',
     'Tests check single envelopes as text.',
     ['soapfish/soap11.py', 'soapfish/soap12.py'], [('Envelope.error_response', 'soapfish/soap11.py, soap12.py'),
                                                    ('parse_fault_message', 'soapfish/soap11.py, soap12.py')])
prop('C23', 'The client stub sends one correct request and surfaces faults',
     'A stub call sends exactly one POST to the service location with the credentials given, the headers of the SOAP version carrying the '
     "operation's action, and the parameter rendered under the operation's input element with the given header. A fault reply raises SOAPError "
     'with its code, message and actor; any other reply is returned parsed as the declared output type, with its header when one is declared.',
     ['inputs', 'configurations'], 'every operation, parameter, header and reply',
     'Tests mock one or two replies.',
     ['soapfish/soap.py'], [('Stub.call', 'soapfish/soap.py:Stub.call'), ('Stub._handle_response', 'soapfish/soap.py')])
prop('C24', 'Generated WSDL is referentially complete for every service',
     'The WSDL generated for a service has, for every method, one port-type operation, one binding operation with its SOAP action and style, '
     "one input and one output message whose only part has the method's part name and its declared element or type, and every reference (service to binding to port type to "
     'operation to message) resolves inside the document. Location and namespaces are those of the service.',
     ['configurations', 'programs'], 'every service description with any number of methods',
     'Tests compare a few generated documents.',
     ['soapfish/py2wsdl.py'], [('build_* functions', 'soapfish/py2wsdl.py'), ('generate_wsdl', 'soapfish/py2wsdl.py')])
prop('C25', 'Generated XSD declares every field, type and facet of the Python schema',
     'The generated schema contains every simple type, complex type, element, import and include of the Python schema; each field appears '
     'under its XML name with its occurrence bounds and nillability, every built-in type is referenced in the XML Schema namespace and every '
     'user type in the target namespace, and every facet declared on a simple type (0 included) is emitted with its value. '
     'Messages are validated against these documents, those of imported and included schemas and of every schema of the service included.',
     ['configurations', 'programs'], 'every schema, every built-in type, every facet combination',
     'Tests compare a few schemas; several built-in types and most facets never appear in one.',
     ['soapfish/py2xsd.py'], [('get_xsd_type', 'soapfish/py2xsd.py'), ('create_xsd_element', 'soapfish/py2xsd.py'),
                              ('xsd_simpleType', 'soapfish/py2xsd.py')])
prop('C26', 'The SOAP 1.1 and SOAP 1.2 WSDL models agree except for the binding namespace',
     'The WSDL document classes for the two SOAP bindings declare the same elements and attributes with the same names, occurrence and '
     'requiredness, differing only in the SOAP binding namespace of the extension elements (and the 1.2-only attributes); within one model '
     "every element's type belongs to that model. Choosing a model by binding namespace gives the matching one.",
     ['programs'], 'every class and field of both models',
     'Tests use few fields of the 1.2 model.',
     ['soapfish/wsdl11.py', 'soapfish/wsdl12.py', 'soapfish/wsdl.py'], [('class tables', 'soapfish/wsdl11.py, wsdl12.py')])
prop('C27', 'Document text never escapes into generated code',
     'Python code generated from an XSD or WSDL document carries text from the document (enumeration values, patterns, namespaces, actions, '
     'locations) only as correctly quoted literals, so that the literal evaluates to the document text whatever characters it contains; in comments '
     'it does not end; and names only as identifiers made of word characters. No text of a document becomes code.',
     ['inputs'], 'every text a document may carry at every place a template emits it',
     'Tests never use quotes, backslashes or newlines in documents.',
     ['soapfish/templates/lib.jinja2', 'soapfish/templates/wsdl.jinja2', 'soapfish/templates/xsd.jinja2', 'soapfish/utils.py'],
     [('template expressions', 'soapfish/templates')])
prop('C28', 'Generated code declares everything the document declares',
     'Code generated from a schema declares every simple type, complex type, attribute group, group and element with its fields in document '
     'order, and for each field its XML name when that is not usable in Python, occurrence bounds, nillability, use, and every facet of a '
     'restriction, so that the generated types enforce what the document says; types which refer to themselves or each other included. Code '
     'generated from a WSDL document declares a service for every SOAP port, with the actions, messages, headers, part names and styles of its '
     'operations, its location and SOAP version, and a function (server) or a stub method (client) for every operation.',
     ['inputs'], 'every schema or WSDL document built from the constructs the generator supports: names which stay different as Python names, types and '
     'elements declared at the top or simple types in place, document style operations with one part per message',
     'Tests generate code for a set of sample documents and mostly check that it compiles.',
     ['soapfish/templates/lib.jinja2', 'soapfish/xsd2py.py'], [('macros', 'soapfish/templates/lib.jinja2')])
prop('C29', 'Imports and includes resolve relative to the importing document, once each',
     'Code generation follows each imported or included document exactly once, even when documents refer to each other in a cycle, and a '
     'relative location is resolved against the document that contains it, for local files and URLs alike and independent of sibling '
     'imports. Included documents without a namespace take the namespace of the document that includes them. (The document code is '
     'generated for has no location of its own: one that refers back to it has it generated as any other document.)',
     ['inputs', 'configurations'], 'every import graph and directory layout',
     'Tests use a few fixed layouts with at most one import per document.',
     ['soapfish/wsdl2py.py', 'soapfish/xsd2py.py', 'soapfish/utils.py'],
     [('merge_imports', 'soapfish/wsdl2py.py:merge_imports'), ('rewrite_paths', 'soapfish/xsd2py.py'), ('resolve_location', 'soapfish/utils.py')])
prop('C30', 'Schema ordering and merging neither lose nor duplicate anything',
     'Reordering the schemas of a WSDL always terminates and returns every schema exactly once, with imported namespaces before their '
     'importers where possible; merging imported WSDL documents keeps every message, port type, binding, service and schema of importer and '
     'imported document. Walking a schema tree visits each distinct location once and terminates on cycles.',
     ['inputs'], 'every set of schemas and import relations, cycles included',
     'Tests use acyclic sets of two or three schemas.',
     ['soapfish/wsdl2py.py', 'soapfish/utils.py'], [('reorder_schemas', 'soapfish/wsdl2py.py'), ('walk_schema_tree', 'soapfish/utils.py')])
prop('C31', 'WS-Addressing replies refer to their request',
     'Filling a WS-Addressing header always sets a fresh message id and the anonymous destination; given a source header it also sets the '
     'action to the request action with "Response" appended and relates the reply to the request message id, leaving the source header '
     'unchanged. Services using WS-Addressing get the addressing headers unless they declare their own.',
     ['inputs'], 'every source header', 'No test fills headers for arbitrary sources.',
     ['soapfish/wsa.py', 'soapfish/soap.py'], [('fill_header', 'soapfish/wsa.py:fill_header'), ('Service.__init__', 'soapfish/soap.py')])
prop('C32', 'Name lookups find the declared item wherever it is, or say it is missing',
     'Looking up an element by name searches every schema of the service with all its imports and includes and returns the declared element, '
     'or none when no schema declares it; looking up operations, messages, port types and bindings returns the item with exactly that name '
     '(prefix ignored) and raises otherwise. A field lookup on a class finds inherited and own fields.',
     ['inputs', 'configurations'], 'every name against every nesting of schemas',
     'Tests look up names in flat schemas.',
     [X, 'soapfish/soap.py', 'soapfish/wsdl.py'], [('Schema.get_element_by_name', X), ('Service.find_element_by_name', 'soapfish/soap.py'),
                                                   ('get_by_name', 'soapfish/wsdl.py')])
prop('C33', 'A type means the same whether it is given by name, as a class or as an object',
     'A field (element, list element, attribute, reference or element of a schema) whose type is given by its dotted name accepts, stores, '
     'writes and reads exactly what it does when given the class or an object of it, and yields the same schema document as the class. Names '
     'are looked up when a value needs the type: classes may refer by name to themselves, to each other and to classes declared later. A name '
     'without a module, or of nothing, is refused.',
     ['inputs', 'configurations', 'histories'], 'every kind of type in every kind of field, every order of use',
     'Tests use one class which refers to itself by name.',
     [X], [('import_type', X + ':import_type'), ('Element._evaluate_type', X + ':Element._evaluate_type'), ('Element.accept', X + ':Element.accept'),
           ('Schema.__init__', X)])
prop('C34', 'Reading or rendering with a schema refuses what that schema refuses',
     'A document read with a schema (a soapfish schema, or a compiled lxml one), or rendered with a compiled one, is validated against that '
     'schema: what it refuses raises an error and is neither returned nor read, and what it accepts is read or rendered exactly as without a '
     'schema. A soapfish schema stands for the document generated from what it declares at the time, whatever was read before with it or '
     'with another one.',
     ['inputs', 'histories'], 'every document, every schema and every order of use',
     'One test reads one invalid document with one schema.',
     [X], [('ComplexType.parsexml', X + ':ComplexType.parsexml'), ('ComplexType.xml', X + ':ComplexType.xml')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
