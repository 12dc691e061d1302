"""C28: what generated code declares, compared with the document it was generated from.  C27: the texts of documents in it."""
import keyword
import re

from lxml import etree

from soapfish import soap, wsdl2py, xsd, xsd2py

XSD = 'http://www.w3.org/2001/XMLSchema'


def x(n):
    return '{%s}%s' % (XSD, n)


def usable(n):
    n = re.sub(r'\W', '_', n)
    return '_' + n if keyword.iskeyword(n) else n


def class_name(n):
    return usable(n[0].upper() + n[1:])


# What a class of a complex type is used for: fields of these names would replace it.
MEMBERS = ('accept', 'create', 'parse_xmlelement', 'parsexml', 'render', 'xml', 'SCHEMA', 'INDICATOR', 'INHERITANCE')
NEEDED = MEMBERS + ('xsd', 'cls', 'instance')


def named(f, n, taken=()):
    """whether a field has the name it has in the document, or, where that can not be used, another one"""
    return f._name == usable(n) if n not in NEEDED and usable(n) not in taken else f._name not in NEEDED


class Doc:
    """One schema document: the declarations it is built from and the unknown values it carries."""

    def __init__(self, spec, prefixes):
        self.spec = dict(spec)
        self.xs, self.own = prefixes
        self.values = {}
        self.tns = nonempty('namespace')
        assume(self.tns != XSD)
        assume(self.tns != 'http://www.w3.org/2000/10/XMLSchema')
        self.symbols = 0

    # ------------------------------------------------------------ unknown values
    def text(self, key):
        if key not in self.values:
            self.values[key] = nonempty('%s %d' % (key[-1], len(self.values)))
        return self.values[key]

    def count(self, key, least=0):
        if key not in self.values:
            self.values[key] = int_between('%s %d' % (key[-1], len(self.values)), least, None)
        return self.values[key]

    def number(self, key, base):
        # restrictions do not widen what the built-in type takes
        if key not in self.values:
            t = builtin_class(root_type(self, base))()
            self.values[key] = int_between('%s %d' % (key[-1], len(self.values)), t.minInclusive, t.maxInclusive)
        return self.values[key]

    # ------------------------------------------------------------ building
    def builtin(self, n):
        return '%s:%s' % (self.xs, n) if self.xs else n

    def mine(self, n):
        return '%s:%s' % (self.own, n) if self.own else n

    def qname(self, what):
        return self.builtin(what[1]) if what[0] in ('xsd', 'inline') else self.mine(what[1])

    def build(self):
        spec = self.spec
        nsmap = {self.xs: XSD}
        if self.own:
            nsmap[self.own] = self.tns
        root = etree.Element(x('schema'), nsmap=nsmap, targetNamespace=self.tns)
        if spec.get('form'):
            root.set('elementFormDefault', spec['form'])
        for kind in spec.get('order', ('simple', 'attrgroups', 'groups', 'complex', 'elements')):
            for d in spec.get(kind, ()):
                if kind == 'simple':
                    self.simple(root, ('simple', d[0]), d[1], d[2], name=d[0])
                elif kind == 'attrgroups':
                    e = etree.SubElement(root, x('attributeGroup'), name=d[0])
                    self.attributes(e, d[0], d[1])
                elif kind == 'groups':
                    e = etree.SubElement(root, x('group'), name=d[0])
                    self.fields(etree.SubElement(e, x('sequence')), d[0], d[1])
                elif kind == 'complex':
                    self.complex(etree.SubElement(root, x('complexType'), name=d[0]), d[0], d[1:])
                else:
                    self.element(root, d)
        return root

    def simple(self, parent, key, base, facets, name=None):
        e = etree.SubElement(parent, x('simpleType'))
        if name is not None:
            e.set('name', name)
        r = etree.SubElement(e, x('restriction'), base=self.qname(base))
        numeric = is_numeric(self, base)
        for f in facets:
            f, n = f if isinstance(f, tuple) else (f, 1)
            for i in range(n):
                k = key + (i, f)
                if f in ('length', 'minLength', 'maxLength', 'totalDigits', 'fractionDigits'):
                    v = text_of(self.count(k))
                elif f == 'whiteSpace':
                    v = 'collapse'
                elif numeric and f != 'pattern':
                    v = text_of(self.number(k, base))
                else:
                    v = self.text(k)
                etree.SubElement(r, x(f), value=v)
        return e

    def attributes(self, parent, owner, attrs):
        for n, what, use in attrs:
            e = etree.SubElement(parent, x('attribute'), name=n)
            if use is not None:
                e.set('use', use)
            if what[0] == 'inline':
                self.simple(e, ('attribute', owner, n), what[1], what[2])
            else:
                e.set('type', self.qname(what))

    def fields(self, parent, owner, fields):
        for n, what, least, most, nil in fields:
            e = etree.SubElement(parent, x('element'), name=n)
            if least is not None:
                e.set('minOccurs', text_of(self.count((owner, n, 'minOccurs'), 2)) if least == 'n' else str(least))
            if most is not None:
                e.set('maxOccurs', text_of(self.count((owner, n, 'maxOccurs'), 2)) if most == 'n' else str(most))
            if least == 'n' and most == 'n':
                assume(self.count((owner, n, 'minOccurs'), 2) <= self.count((owner, n, 'maxOccurs'), 2))
            if nil is not None:
                e.set('nillable', nil)
            if what[0] == 'inline':
                self.simple(e, ('field', owner, n), what[1], what[2])
            else:
                e.set('type', self.qname(what))

    def complex(self, e, owner, d):
        container, fields, attrs, refs, derived = d
        if derived is not None:
            c = etree.SubElement(e, x('complexContent'))
            e = etree.SubElement(c, x(derived[0]), base=self.mine(derived[1]))
        if container is not None:
            self.fields(etree.SubElement(e, x(container)), owner, fields)
        self.attributes(e, owner, attrs)
        for r in refs:
            etree.SubElement(e, x('attributeGroup'), ref=self.mine(r))

    def element(self, root, d):
        n, what, nil, subst = d
        e = etree.SubElement(root, x('element'), name=n)
        if nil is not None:
            e.set('nillable', nil)
        if subst:
            e.set('substitutionGroup', self.text(('element', n, 'substitutionGroup')))
        if what[0] == 'complex':
            self.complex(etree.SubElement(e, x('complexType')), n, what[1:])
        elif what[0] == 'inline':
            self.simple(e, ('element', n), what[1], what[2])
        else:
            e.set('type', self.qname(what))


NUMERIC = ('decimal', 'double', 'float')


def root_type(doc, base):
    while base[0] == 'own':
        base = [d for d in doc.spec['simple'] if d[0] == base[1]][0][1]
    return base[1]


def is_numeric(doc, base):
    n = root_type(doc, base)
    return n in NUMERIC or issubclass(getattr(xsd, n[0].upper() + n[1:]), xsd.Integer)


# ---------------------------------------------------------------- comparing
def builtin_class(n):
    return getattr(xsd, n[0].upper() + n[1:])


def accepts(t, v):
    try:
        t.accept(v)
    except ValueError:
        return False
    return True


class Comparison:
    def __init__(self, doc, made):
        self.doc, self.made = doc, made

    def declared(self, n):
        c = class_name(n)
        if not hasattr(self.made, c):
            fail('every type is declared', n)
            return None
        return getattr(self.made, c)

    def facets(self, t, key, base, facets, where):
        """Every facet restricts the values the type accepts (or is there, where it does not)."""
        doc = self.doc
        numeric = is_numeric(doc, base)
        for f in facets:
            f, n = f if isinstance(f, tuple) else (f, 1)
            v = [doc.values.get(key + (i, f)) for i in range(n)]
            if f == 'pattern':
                check(identical(t.pattern, v[0]), 'every facet of a restriction is declared', (where, f, t.pattern, v[0]))
            elif f == 'whiteSpace':
                check(t.whiteSpace == 'collapse', 'every facet of a restriction is declared', (where, f, t.whiteSpace))
            elif f in ('length', 'minLength', 'maxLength', 'totalDigits', 'fractionDigits'):
                check(getattr(t, f) == v[0], 'every facet of a restriction is declared', (where, f, getattr(t, f), v[0]))
            elif f == 'enumeration':
                check(t.enumeration is not None and len(t.enumeration) == n, 'every value of an enumeration is declared', (where, t.enumeration))
                for i in range(n):
                    check(t.enumeration[i] == v[i], 'every value of an enumeration is declared in order', (where, t.enumeration, v[i]))
            elif f in ('minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'):
                got = getattr(t, f)
                want = v[0]
                check(got == want, 'every facet of a restriction is declared', (where, f, got, want))

    def type_of(self, f, what, key, where):
        f._evaluate_type()
        t = f._type
        if what[0] == 'xsd':
            check(type(t) is builtin_class(what[1]), 'a field has the type the document gives it', (where, t, what[1]))
        elif what[0] == 'own':
            check(type(t) is self.declared(what[1]), 'a field has the type the document gives it', (where, t, what[1]))
        else:
            base = builtin_class(what[1][1]) if what[1][0] == 'xsd' else self.declared(what[1][1])
            check(isinstance(t, base), 'a field has the type the document gives it', (where, t, what[1]))
            if isinstance(t, base):
                self.facets(t, key, what[1], what[2], where)

    def name_of(self, f):
        return f.tagname if f.tagname is not None else f._name

    def field(self, f, owner, d):
        n, what, least, most, nil = d
        where = '%s.%s' % (owner, n)
        check(self.name_of(f) == n, 'a field has the name the document gives it', (where, f.tagname, f._name))
        check(named(f, n), 'a field has the name of the element where that is usable', (where, f._name))
        low = self.doc.values[(owner, n, 'minOccurs')] if least == 'n' else 1 if least is None else int(least)
        check(f._minOccurs == low, 'a field has the lower bound the document gives it', (where, f._minOccurs, low))
        if most is None or most == '1':
            check(isinstance(f, xsd.Element) and not isinstance(f, (xsd.ListElement, xsd.Attribute, xsd.Ref)), 'a field which occurs once is an element', where)
        else:
            check(isinstance(f, xsd.ListElement), 'a field which may occur more than once is a list', where)
            if isinstance(f, xsd.ListElement):
                if most == 'unbounded':
                    check(f._maxOccurs is None or f._maxOccurs is xsd.UNBOUNDED or f._maxOccurs == xsd.UNBOUNDED,
                          'a field has the upper bound the document gives it', (where, f._maxOccurs))
                else:
                    high = self.doc.values[(owner, n, 'maxOccurs')] if most == 'n' else int(most)
                    check(f._maxOccurs == high, 'a field has the upper bound the document gives it', (where, f._maxOccurs, high))
        check(bool(f.nillable) == (nil in ('true', '1')), 'a field is nillable where the document says so', (where, f.nillable))
        self.type_of(f, what, ('field', owner, n), where)

    def attribute(self, f, owner, d, taken):
        n, what, use = d
        where = '%s.%s' % (owner, n)
        check(isinstance(f, xsd.Attribute), 'an attribute is an attribute', where)
        check(self.name_of(f) == n, 'an attribute has the name the document gives it', (where, f.tagname, f._name))
        check(named(f, n, taken), 'an attribute has the name of the attribute where that is usable', (where, f._name))
        want = {None: xsd.Use.OPTIONAL, 'optional': xsd.Use.OPTIONAL, 'required': xsd.Use.REQUIRED, 'prohibited': xsd.Use.PROHIBITED}[use]
        check(f.use == want, 'an attribute has the use the document gives it', (where, f.use, use))
        self.type_of(f, what, ('attribute', owner, n), where)

    def declares(self, cls, n, fields, attrs, refs, before=None):
        """The fields, attributes and references to attribute groups of a class, in the order of the document."""
        m = cls._meta
        bf, ba, bg = (len(before._meta.fields), len(before._meta.attributes), len(before._meta.groups)) if before is not None else (0, 0, 0)
        got = m.fields[bf:]
        check(len(got) == len(fields), 'a type declares every element', (n, [f._name for f in m.fields], [d[0] for d in fields]))
        for f, d in zip(got, fields):
            self.field(f, n, d)
        got = m.attributes[ba:]
        check(len(got) == len(attrs), 'a type declares every attribute', (n, [f._name for f in m.attributes], [d[0] for d in attrs]))
        for f, d in zip(got, attrs):
            self.attribute(f, n, d, [usable(d[0]) for d in fields])
        for f in m.all:
            check(f._name not in MEMBERS, 'no field replaces what the class is used for', (n, f._name))
        got = m.groups[bg:]
        check(len(got) == len(refs), 'a type refers to every attribute group', (n, [f._name for f in m.groups], refs))
        for f, r in zip(got, refs):
            f._evaluate_type()
            check(type(f._type) is self.declared(r), 'a type refers to every attribute group', (n, r, f._type))

    def complex(self, n, d):
        container, fields, attrs, refs, derived = d
        cls = self.declared(n)
        if cls is None:
            return None
        base = None
        if derived is not None:
            base = self.declared(derived[1])
            check(base is not None and issubclass(cls, base), 'a derived type is a subclass of its base', (n, derived))
            want = xsd.Inheritance.EXTENSION if derived[0] == 'extension' else xsd.Inheritance.RESTRICTION
            check(cls.INHERITANCE == want, 'a derived type knows how it is derived', (n, cls.INHERITANCE))
        else:
            check(issubclass(cls, xsd.ComplexType), 'a complex type is declared as one', n)
        if container is not None:
            want = {'sequence': xsd.Sequence, 'choice': xsd.Choice, 'all': xsd.All}[container]
            check(cls.INDICATOR is want, 'a type has the indicator the document gives it', (n, cls.INDICATOR, container))
        self.declares(cls, n, fields if container is not None else (), attrs, refs, base)
        if container == 'sequence':
            self.creates(cls, n, fields)
        return cls

    def creates(self, cls, n, fields):
        """create() takes the required elements in the order of the document."""
        needed = [d for d in fields if d[2] in (None, '1')]
        names = {self.name_of(f): f._name for f in cls._meta.fields}
        given = [[] if d[3] not in (None, '1') else None for d in needed]
        made = cls.create(*given)
        check(type(made) is cls, 'create() makes an instance', n)
        for d, v in zip(needed, given):
            got = getattr(made, names[d[0]])
            check(got is None if v is None else len(got) == 0, 'create() sets the required elements', (n, d[0], got))
        named = cls.create(**{names[d[0]]: v for d, v in zip(needed, given)})
        check(type(named) is cls, 'create() takes the required elements by name', n)

    def run(self):
        doc, spec = self.doc, self.doc.spec
        schemas = [getattr(self.made, n) for n in dir(self.made) if isinstance(getattr(self.made, n), xsd.Schema)]
        check(len(schemas) == 1, 'there is one schema object', len(schemas))
        s = schemas[0]
        check(identical(s.targetNamespace, doc.tns), 'the schema has the namespace of the document', s.targetNamespace)
        check(s.elementFormDefault == (spec.get('form') or 'unqualified'), 'the schema has the form default of the document', s.elementFormDefault)
        simple, complex_, groups, attrgroups = [], [], [], []
        for n, base, facets in spec.get('simple', ()):
            cls = self.declared(n)
            if cls is None:
                continue
            simple.append(cls)
            want = builtin_class(base[1]) if base[0] == 'xsd' else self.declared(base[1])
            check(issubclass(cls, want), 'a restriction is a subclass of its base', (n, base))
            self.facets(cls(), ('simple', n), base, facets, n)
            if base[0] == 'own':
                # what the base restricts holds for the derived type as well
                b = [d for d in spec['simple'] if d[0] == base[1]][0]
                mine = [f[0] if isinstance(f, tuple) else f for f in facets]
                self.facets(cls(), ('simple', b[0]), b[1], [f for f in b[2] if (f[0] if isinstance(f, tuple) else f) not in mine], n)
        for n, attrs in spec.get('attrgroups', ()):
            cls = self.declared(n)
            if cls is not None:
                attrgroups.append(cls)
                check(issubclass(cls, xsd.AttributeGroup), 'an attribute group is declared as one', n)
                self.declares(cls, n, (), attrs, ())
        for n, fields in spec.get('groups', ()):
            cls = self.declared(n)
            if cls is not None:
                groups.append(cls)
                check(issubclass(cls, xsd.Group), 'a group is declared as one', n)
                self.declares(cls, n, fields, (), ())
        for d in spec.get('complex', ()):
            cls = self.complex(d[0], d[1:])
            if cls is not None:
                complex_.append(cls)
        for mine, listed, what in ((simple, s.simpleTypes, 'simple type'), (complex_, s.complexTypes, 'complex type'), (groups, s.groups, 'group'),
                                   (attrgroups, s.attributeGroups, 'attribute group')):
            check(len(mine) == len(listed), 'the schema lists every %s' % what, (listed, mine))
            for c in mine:
                check(len([o for o in listed if o is c]) == 1, 'the schema lists every %s' % what, c)
                check(c.SCHEMA is s, 'every %s belongs to the schema' % what, c)
        expected = [class_name(d[0]) for kind in ('simple', 'attrgroups', 'groups', 'complex') for d in spec.get(kind, ())]
        expected += [class_name(d[0]) for d in spec.get('elements', ()) if d[1][0] == 'complex']
        got = [n for n in dir(self.made) if isinstance(getattr(self.made, n), type)]
        check(sorted(got) == sorted(expected), 'nothing but the types of the document is declared', (sorted(got), sorted(expected)))
        elements = spec.get('elements', ())
        check(len(s.elements) == len(elements), 'the schema lists every element', (list(s.elements), [d[0] for d in elements]))
        for n, what, nil, subst in elements:
            if n not in s.elements:
                fail('the schema lists every element', n)
                continue
            e = s.elements[n]
            check(bool(e.nillable) == (nil in ('true', '1')), 'an element is nillable where the document says so', (n, e.nillable))
            if subst:
                check(identical(e.substitutionGroup, doc.values[('element', n, 'substitutionGroup')]), 'an element has its substitution group', n)
            else:
                check(e.substitutionGroup is None, 'an element has its substitution group', (n, e.substitutionGroup))
            if what[0] == 'complex':
                cls = self.complex(n, what[1:])
                e._evaluate_type()
                check(cls is not None and type(e._type) is cls, 'an element has the type the document gives it', (n, e._type))
                check(cls is not None and cls.SCHEMA is s, 'every complex type belongs to the schema', cls)
            else:
                self.type_of(e, what, ('element', n), n)


def declares(spec, prefixes):
    doc = Doc(spec, prefixes)
    code = xsd2py.generate_code_from_xsd(doc.build(), encoding=None, cwd='/base')
    Comparison(doc, load_code(code)).run()


# ---------------------------------------------------------------- services
WSDL = 'http://schemas.xmlsoap.org/wsdl/'
BINDING = {'11': 'http://schemas.xmlsoap.org/wsdl/soap/', '12': 'http://schemas.xmlsoap.org/wsdl/soap12/'}
HTTP = 'http://schemas.xmlsoap.org/soap/http'
VERSION = {'11': soap.SOAPVersion.SOAP11, '12': soap.SOAPVersion.SOAP12}


def w(n):
    return '{%s}%s' % (WSDL, n)


class Services:
    """One WSDL document: {'schemas': ((namespace or None for unknown, spec), ...), 'ports': ((service, port, version, location, transport,
    operations), ...)}; operation: (name, input, output, input headers, output headers, with action, style), message: (kind, name of
    element or type), header: (message, part, element)."""

    def __init__(self, spec, v, prefixes):
        self.spec, self.v = dict(spec), v
        self.xs, self.own, self.wsdl = prefixes
        self.tns = nonempty('service namespace')
        assume(self.tns != XSD)
        assume(self.tns != 'http://www.w3.org/2000/10/XMLSchema')
        self.values = {}
        self.docs = []

    def text(self, *key):
        if key not in self.values:
            self.values[key] = nonempty('%s %d' % (key[-1], len(self.values)))
        return self.values[key]

    def here(self, n):
        return '%s:%s' % (self.wsdl, n) if self.wsdl else n

    def build(self):
        nsmap = {'wsdl': WSDL, 'soap11': BINDING['11'], 'soap12': BINDING['12'], self.xs: XSD}
        if self.wsdl:
            nsmap[self.wsdl] = self.tns
        root = etree.Element(w('definitions'), nsmap=nsmap, targetNamespace=self.tns)
        for kind in self.spec.get('order', ('types', 'messages', 'portTypes', 'bindings', 'services')):
            getattr(self, kind)(root)
        return root

    def types(self, root):
        types = etree.SubElement(root, w('types'))
        for i, spec in enumerate(self.spec['schemas']):
            doc = Doc(spec, (self.xs, self.own))
            doc.tns = nonempty('namespace %d' % i)
            assume(doc.tns != XSD)
            assume(doc.tns != 'http://www.w3.org/2000/10/XMLSchema')
            for other in self.docs:
                assume(doc.tns != other.tns)
            self.docs.append(doc)
            s = doc.build()
            types.append(s)

    def message(self, root, name, parts):
        m = etree.SubElement(root, w('message'), name=name)
        for n, what in parts:
            p = etree.SubElement(m, w('part'), name=n)
            p.set(what[0], self.own + ':' + what[1] if self.own else what[1])

    def messages(self, root):
        done = []
        for port in self.spec['ports']:
            for op in port[5]:
                for what, side in ((op[1], 'In'), (op[2], 'Out')):
                    self.message(root, port[1] + op[0] + side, ((self.part(port, op, side, what), what),))
                for h in op[3] + op[4]:
                    if h[0] not in done:
                        done.append(h[0])
                        same = [o for p in self.spec['ports'] for q in p[5] for o in q[3] + q[4] if o[0] == h[0]]
                        parts = []
                        for o in same:
                            if o[1] not in [n for n, x_ in parts]:
                                parts.append((o[1], ('element', o[2])))
                        self.message(root, h[0], parts)

    def part(self, port, op, side, what):
        return self.text(port[1], op[0], side, 'part') if what[0] == 'element' else 'part' + side

    def portTypes(self, root):
        for port in self.spec['ports']:
            t = etree.SubElement(root, w('portType'), name=port[1] + 'Type')
            for op in port[5]:
                o = etree.SubElement(t, w('operation'), name=op[0])
                etree.SubElement(o, w('input'), message=self.here(port[1] + op[0] + 'In'))
                etree.SubElement(o, w('output'), message=self.here(port[1] + op[0] + 'Out'))

    def bindings(self, root):
        for port in self.spec['ports']:
            space = BINDING[port[2] or self.v]
            b = etree.SubElement(root, w('binding'), name=port[1] + 'Binding', type=self.here(port[1] + 'Type'))
            etree.SubElement(b, '{%s}binding' % space, transport=port[4] or HTTP, style='document')
            for op in reversed(port[5]):
                o = etree.SubElement(b, w('operation'), name=op[0])
                so = etree.SubElement(o, '{%s}operation' % space)
                if op[5]:
                    so.set('soapAction', self.text(port[1], op[0], 'action'))
                if op[6]:
                    so.set('style', op[6])
                for side, headers in (('input', op[3]), ('output', op[4])):
                    e = etree.SubElement(o, w(side))
                    for h in headers:
                        etree.SubElement(e, '{%s}header' % space, message=self.here(h[0]), part=h[1], use='literal')
                    etree.SubElement(e, '{%s}body' % space, use='literal')

    def services(self, root):
        last, name = None, None
        for port in self.spec['ports']:
            if port[0] != name:
                name, last = port[0], etree.SubElement(root, w('service'), name=port[0])
            p = etree.SubElement(last, w('port'), name=port[1], binding=self.here(port[1] + 'Binding'))
            etree.SubElement(p, '{%s}address' % BINDING[port[2] or self.v], location=port[3])


def check_message(doc, made, service, got, what, where):
    if what[0] == 'element':
        check(got == what[1], 'a method has the messages the document gives it', (where, got, what))
        e = service.find_element_by_name(got)
        check(e is not None, 'the messages of a method are elements of the schemas of the service', (where, got))
    else:
        check(got is getattr(made, class_name(what[1])), 'a method has the messages the document gives it', (where, got, what))


def check_headers(made, cls, headers, where):
    if not headers:
        check(cls is None, 'a method has the headers the document gives it', (where, cls))
        return
    check(cls is not None, 'a method has the headers the document gives it', where)
    if cls is None:
        return
    fields = cls._meta.fields
    check(len(fields) == len(headers), 'a method has the headers the document gives it', (where, [f._name for f in fields], headers))
    for h in headers:
        found = [f for f in fields if f._name == usable(h[1])]
        check(len(found) == 1, 'a method has the headers the document gives it', (where, h))
        for f in found:
            check(any(f is s.elements.get(h[2]) for s in schemas_of(made)), 'a header is the element of the part', (where, h))


def schemas_of(made):
    found = []
    for n in dir(made):
        s = getattr(made, n)
        if isinstance(s, xsd.Schema) and not any(s is o for o in found):
            found.append(s)
    return found


def recorder(stub):
    class Recorder(stub):
        def call(self, *args, **kwargs):
            self.calls.append((args, kwargs))
            return 'answer'
    return Recorder


def serves(spec, v, target, prefixes):
    doc = Services(spec, v, prefixes)
    xml = doc.build()
    code = wsdl2py.generate_code_from_wsdl(xml, target, encoding=None, cwd='/base')
    made = load_code(code)
    found = [getattr(made, n) for n in dir(made) if isinstance(getattr(made, n), soap.Service)]
    ports = [p for p in doc.spec['ports'] if (p[2] or v) == v and (p[4] or HTTP) == HTTP]
    check(len(found) == len(ports), 'there is a service for every port', (len(found), [p[1] for p in ports]))
    schemas = schemas_of(made)
    check(len(schemas) == len(doc.docs), 'there is a schema object for every schema', len(schemas))
    for d in doc.docs:
        check(len([s for s in schemas if identical(s.targetNamespace, d.tns)]) == 1, 'there is a schema object for every schema', d.tns)
    for p in ports:
        mine = [s for s in found if s.name == p[1]]
        check(len(mine) == 1, 'a service has the name of the port', (p[1], [s.name for s in found]))
        if len(mine) != 1:
            continue
        s = mine[0]
        check(identical(s.targetNamespace, doc.tns), 'a service has the namespace of the document', (p[1], s.targetNamespace))
        check(s.version is VERSION[v], 'a service has the SOAP version of the document', (p[1], s.version))
        scheme, rest = p[3].split('://')
        host = rest.split('/')[0]
        check(s.location == '${scheme}://${host}' + rest[len(host):], 'a service has the location of the port', (p[1], s.location, p[3]))
        check(len(s.schemas) == len(doc.docs) and all(any(a is b for b in s.schemas) for a in schemas), 'a service has every schema', (p[1], len(s.schemas)))
        check([m.operationName for m in s.methods] == [o[0] for o in reversed(p[5])], 'a service has a method for every operation',
              (p[1], [m.operationName for m in s.methods]))
        for m in s.methods:
            ops = [o for o in p[5] if o[0] == m.operationName]
            if not ops:
                continue
            o = ops[0]
            where = '%s.%s' % (p[1], o[0])
            if o[5]:
                check(identical(m.soapAction, doc.values[(p[1], o[0], 'action')]), 'a method has the action the document gives it', (where, m.soapAction))
            else:
                check(m.soapAction == '', 'a method has the action the document gives it', (where, m.soapAction))
            check(m.style == (o[6] or 'document'), 'a method has the style the document gives it', (where, m.style))
            check_message(doc, made, s, m.input, o[1], where)
            check_message(doc, made, s, m.output, o[2], where)
            check(identical(m.inputPartName, doc.part(p, o, 'In', o[1])), 'a method has the part names the document gives it', (where, m.inputPartName))
            check(identical(m.outputPartName, doc.part(p, o, 'Out', o[2])), 'a method has the part names the document gives it', (where, m.outputPartName))
            check_headers(made, m.input_header, o[3], where)
            check_headers(made, m.output_header, o[4], where)
            if target == 'server':
                check(m.function is not None and m.function.__name__ == usable(o[0]), 'a server has a function for every operation', where)
            else:
                check(m.function is None, 'a client has no functions', where)
        if target == 'client':
            stubs = [c for c in classes_of(made) if issubclass(c, soap.Stub) and c.SERVICE is s]
            check(len(stubs) == 1, 'a client has a stub for every service', (p[1], len(stubs)))
            if len(stubs) != 1:
                continue
            check(stubs[0].SCHEME == scheme and stubs[0].HOST == host, 'a stub has the scheme and host of the port', (stubs[0].SCHEME, stubs[0].HOST))
            stub = recorder(stubs[0])()
            check(stub.location == p[3], 'a stub calls the location of the port', (stub.location, p[3]))
            for o in p[5]:
                stub.calls = []
                answer = getattr(stub, usable(o[0]))(anything('parameter'), header=anything('header'))
                check(answer == 'answer' and len(stub.calls) == 1, 'a stub has a method for every operation', o[0])
                args, kwargs = stub.calls[0]
                check(len(args) == 2 and args[0] == o[0] and identical(args[1], anything('parameter')) and identical(kwargs['header'], anything('header')),
                      'a method of a stub calls its operation', (o[0], args, kwargs))
                stub.calls = []
                getattr(stub, usable(o[0]))(anything('parameter'))
                args, kwargs = stub.calls[0]
                check(args[0] == o[0] and kwargs['header'] is None, 'a method of a stub calls its operation', (o[0], args, kwargs))
    if target == 'server':
        check(not [c for c in classes_of(made) if issubclass(c, soap.Stub) and c is not soap.Stub], 'a server has no stubs', '')


def classes_of(made):
    return [getattr(made, n) for n in dir(made) if isinstance(getattr(made, n), type)]


# ---------------------------------------------------------------- texts stay data
def planted(spec, at, given):
    """The element of a nested tuple (tag, attributes, children), the attribute at = (path, name) replaced by the unknown text given."""
    def build(node, path):
        tag, attrs, children = node
        nsmap = dict(attrs).get('nsmap')
        made = etree.Element(tag, nsmap=dict(nsmap)) if nsmap else etree.Element(tag)
        for n, v in attrs:
            if n != 'nsmap':
                made.set(n, given if (path, n) in at else v)
        for i, c in enumerate(children):
            made.append(build(c, path + (i,)))
        return made
    return build(spec, ())


def everywhere(content):
    """Every document which can be referred to is this one."""
    token = sym('content', bytes)

    class Reply:
        pass

    def get(url, *a, **k):
        r = Reply()
        r.content = token
        return r
    hook('open.content', lambda path: token)
    hook('requests.get', get)
    xml_hooks(fromstring=lambda text, parser: content() if identical(text, token) else None)


def stays_data(spec, at, kind, target=None, carried=False):
    """Code for a document with an unknown text in it: the text is data in the code, or no code comes of it."""
    given = sym('text of the document', str)
    everywhere(lambda: etree.Element(x('schema'), nsmap={'xs': XSD}, targetNamespace='urn:inner'))
    xml = planted(spec, at, given)
    try:
        if kind == 'xsd':
            code = xsd2py.generate_code_from_xsd(xml, encoding=None, cwd='/base')
        else:
            code = wsdl2py.generate_code_from_wsdl(xml, target, encoding=None, cwd='/base')
    except Exception:
        stop('no code')
    texts = judge_code(code)
    if carried:
        assume(given != '')
        check(texts is not None, 'the code is a program', '')
        check(texts is None or known(given) or any(identical(t, given) for t in texts), 'the text of the document is the value of a literal', texts)
