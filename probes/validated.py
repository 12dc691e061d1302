"""C34: documents read or written with a schema."""
from lxml import etree

from soapfish import py2xsd, xsd


class Inner(xsd.ComplexType):
    x = xsd.Element(xsd.String, minOccurs=0)
    k = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)


def same_document(a, b):
    if a.tag != b.tag or len(a) != len(b) or sorted(a.attrib.items()) != sorted(b.attrib.items()):
        return False
    return all(same_document(i, j) for i, j in zip(a, b))


def schema_for(cls, tns='urn:probe:validated'):
    return xsd.Schema(tns, complexTypes=[cls], elements={'root': xsd.Element(cls)})


def watch():
    """Whatever is validated gets a verdict of its own; -> the list of (schema, document, verdict)."""
    asked = []

    def valid(schema, doc):
        verdict = flip('valid %d' % len(asked))
        asked.append((schema, doc, verdict))
        return verdict
    xml_hooks(valid=valid)
    return asked


def document():
    class Doc(xsd.ComplexType):
        name = xsd.Element(xsd.String, minOccurs=0)
        inner = xsd.Element(Inner, minOccurs=0)
        many = xsd.ListElement(xsd.Int, 'one', minOccurs=0)
        mark = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
    obj = Doc()
    if flip('with content'):
        obj.name = nonempty('name')
        obj.inner = Inner(x=nonempty('x'))
        obj.many.append(int_between('one', -5, 5))
        obj.mark = nonempty('mark')
    return Doc, obj


def fields(obj):
    inner = obj.inner
    return (obj.name, None if inner is None else (inner.x, inner.k), list(obj.many), obj.mark)


def judged(asked, n, schema, compiled, what):
    """The last validation was against what the schema declares now."""
    check(len(asked) == n, what + ' with a schema is validated once', len(asked))
    if len(asked) != n:
        stop()
    against = asked[-1][0]
    if compiled is not None:
        check(against is compiled, 'a compiled schema is used as it is')
    else:
        check(same_document(against.source, py2xsd.generate_xsd(schema)), 'a schema stands for the document generated for it')


def read(given, earlier):
    Doc, obj = document()
    content = obj.xml('root', namespace='urn:probe:validated')
    schema = schema_for(Doc)
    asked = watch()
    compiled = etree.XMLSchema(py2xsd.generate_xsd(schema)) if given == 'compiled' else None
    count = 0
    other = schema_for(Inner, 'urn:probe:other')
    try:
        if earlier == 'other schema':
            count += 1
            Doc.parsexml(content, schema=other)
        elif earlier == 'same schema':
            count += 1
            Doc.parsexml(content, schema=schema)
        elif earlier == 'none':
            Doc.parsexml(content)
        elif earlier == 'changed':
            count += 1
            Doc.parsexml(content, schema=schema)
            schema.elements['late'] = xsd.Element(Inner)
        elif earlier == 'renamed':
            count += 1
            Doc.parsexml(content, schema=schema)
            schema.targetNamespace = 'urn:probe:renamed'
        elif earlier == 'other class':
            count += 1
            Inner.parsexml(content, schema=schema)
    except Exception:
        pass
    n = len(asked)
    check(n == count, 'documents are validated when a schema is given, and only then', n)
    try:
        got = Doc.parsexml(content, schema=compiled or schema) if flip('by keyword') else Doc.parsexml(content, compiled or schema)
    except Exception as e:
        judged(asked, n + 1, schema, compiled, 'reading')
        check(not asked[-1][2], 'what the schema accepts is read', e)
        check(isinstance(e, etree.LxmlError), 'a refused document raises an error of its validation', e)
        return
    judged(asked, n + 1, schema, compiled, 'reading')
    check(asked[-1][2], 'what the schema refuses is not read')
    check(asked[-1][1] is got._xmlelement, 'what is read is what was validated')
    plain = Doc.parsexml(content)
    check(len(asked) == n + 1, 'documents are validated when a schema is given, and only then')
    check(fields(got) == fields(plain), 'a schema does not change what is read', fields(got), fields(plain))


def written(how):
    Doc, obj = document()
    schema = schema_for(Doc)
    asked = watch()
    compiled = etree.XMLSchema(py2xsd.generate_xsd(schema))
    kw = {'plain': {}, 'namespace': {'namespace': 'urn:probe:validated'},
          'qualified': {'namespace': 'urn:probe:validated', 'elementFormDefault': xsd.ElementFormDefault.QUALIFIED},
          'compact': {'pretty_print': False}, 'second': {}}[how]
    if how == 'second':
        try:
            obj.xml('root', schema=compiled)
        except Exception:
            pass
        obj.name = nonempty('name 2')
    plain = obj.xml('root', **kw)
    n = len(asked)
    check(n == (1 if how == 'second' else 0), 'documents are validated when a schema is given, and only then', n)
    try:
        got = obj.xml('root', schema=compiled, **kw)
    except Exception as e:
        judged(asked, n + 1, schema, compiled, 'rendering')
        check(not asked[-1][2], 'what the schema accepts is rendered', e)
        check(isinstance(e, etree.LxmlError), 'a refused document raises an error of its validation', e)
        return
    judged(asked, n + 1, schema, compiled, 'rendering')
    check(asked[-1][2], 'what the schema refuses is not rendered')
    check(same_tree(asked[-1][1], tree_of(got)), 'what is rendered is what was validated')
    check(same_tree(tree_of(plain), tree_of(got)), 'a schema does not change what is rendered')
