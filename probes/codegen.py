"""C29, C30: documents which import each other."""
import os

from lxml import etree

from soapfish import utils, wsdl2py, wsdl11, wsdl12, xsd, xsd2py, xsdspec
from soapfish.utils import resolve_location, walk_schema_tree

MODEL = {'11': wsdl11, '12': wsdl12}
WSDL = 'http://schemas.xmlsoap.org/wsdl/'
XSD = 'http://www.w3.org/2001/XMLSchema'
SOAPNS = {'11': 'http://schemas.xmlsoap.org/wsdl/soap/', '12': 'http://schemas.xmlsoap.org/wsdl/soap12/'}


# ---------------------------------------------------------------- ordering
def reaches(edges, a, b):
    seen, todo = [], [y for x, y in edges if x == a]
    while todo:
        n = todo.pop()
        if n == b:
            return True
        if n not in seen:
            seen.append(n)
            todo.extend([y for x, y in edges if x == n])
    return False


def ordering(count, graphs, twins, known):
    """reorder_schemas on every listed graph: pairs (importer, imported)."""
    bounded()
    names = ['urn:%d' % i for i in range(count)] if known else [nonempty('ns%d' % i) for i in range(count)]
    if not known:
        for i in range(count):
            distinct(names[i], 'http://elsewhere')
            for j in range(i):
                distinct(names[i], names[j])
    for edges in graphs:
        schemas = []
        for i in range(count):
            s = xsdspec.Schema(targetNamespace=names[i])
            schemas.append(s)
        if twins:
            schemas.append(xsdspec.Schema(targetNamespace=names[0]))
        for a, b in edges:
            schemas[a].imports.append(xsdspec.Import(namespace=names[b]))
        for s in schemas:
            s.imports.append(xsdspec.Import(namespace='http://elsewhere'))
        order = list(wsdl2py.reorder_schemas(list(schemas)))
        check(len(order) == len(schemas), 'every schema is there exactly once', (edges, len(order)))
        place = {}
        for i, s in enumerate(schemas):
            at = [k for k, o in enumerate(order) if o is s]
            check(len(at) == 1, 'every schema is there exactly once', (edges, i, at))
            place[i] = at[0] if at else -1
        for a, b in edges:
            if a != b and not reaches(edges, b, a):
                check(place[b] < place[a], 'a schema comes after the ones it imports', (edges, a, b))
                if twins and b == 0:
                    check(place[count] < place[a], 'a schema comes after all schemas of a namespace it imports', (edges, a))


# ---------------------------------------------------------------- schema trees
def tree_walk(shape, roots, key):
    """shape: {name: (location, imports, includes)}"""
    bounded()
    shape = dict(shape)
    made = {n: xsd.Schema('urn:' + n, location=loc) for n, (loc, imports, includes) in shape.items()}
    for n, (loc, imports, includes) in shape.items():
        made[n].imports = tuple(made[i] for i in imports)
        made[n].includes = tuple(made[i] for i in includes)
    calls = []

    def callback(item):
        calls.append(item)
        return ('value', item)
    got = walk_schema_tree([made[r] for r in roots], callback)
    below, todo = [], list(roots)
    seen = []
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.append(n)
        for m in shape[n][1] + shape[n][2]:
            if m not in below:
                below.append(m)
            todo.append(m)
    locations = []
    for n in below:
        loc = shape[n][0]
        if loc not in locations:
            locations.append(loc)
    check(len(got) == len(locations), 'every location once', (list(got), locations))
    for loc in locations:
        if loc not in got:
            fail('every location is visited', loc)
            continue
        kind, item = got[loc]
        check(item.location == loc and any(item is made[n] for n in below), 'each location stands for the schema there', loc)
        check(len([c for c in calls if c.location == loc]) == 1, 'each location is visited once', (loc, len(calls)))
    check(len(calls) == len(locations), 'each location is visited once', len(calls))


# ---------------------------------------------------------------- documents
def unknown_names(docs):
    out = {}
    for d in docs:
        out[d] = name('name_' + d)
    names = list(out.values())
    for i, a in enumerate(names):
        for b in names[:i]:
            distinct(a, b)
    return out


def serve(documents, tracked=None):
    """Makes documents (by path or URL) readable; anything else does not exist.  Every parse gives a fresh tree."""
    tokens = {}
    for p in documents:
        tokens[p] = sym('content ' + p, bytes)

    def content(path):
        if '://' not in path:
            path = os.path.normpath(path)
        for p in tokens:
            if path == p:
                emit('read', p)
                return tokens[p]
        emit('missing', path)
        raise FileNotFoundError(path)

    class Reply:
        pass

    def get(url, *a, **k):
        r = Reply()
        r.content = content(url)
        r.status_code = 200
        return r

    def parse(text, parser):
        for p in tokens:
            if identical(text, tokens[p]):
                return documents[p]()
        return None
    hook('open.content', content)
    hook('requests.get', get)
    xml_hooks(fromstring=parse)


def w(n):
    return '{%s}%s' % (WSDL, n)


def x(n):
    return '{%s}%s' % (XSD, n)


def wsdl_doc(v, d, n, imports, schema=None, tns='urn:t'):
    """A WSDL document with one item of each kind, named after an unknown name."""
    def build():
        s = '{%s}' % SOAPNS[v]
        root = etree.Element(w('definitions'), nsmap={'wsdl': WSDL, 'soap': SOAPNS[v], 'xsd': XSD}, targetNamespace=tns)
        for loc in imports:
            etree.SubElement(root, w('import'), namespace='urn:i', location=loc)
        if schema is not None:
            types = etree.SubElement(root, w('types'))
            for sc in schema:
                schema_into(etree.SubElement(types, x('schema'), targetNamespace=sc[0]), *sc[1:])
        m = etree.SubElement(root, w('message'), name=n)
        etree.SubElement(m, w('part'), name='body', element='e' + d)
        p = etree.SubElement(root, w('portType'), name=n)
        o = etree.SubElement(p, w('operation'), name='Op' + d)
        etree.SubElement(o, w('input'), message=n)
        etree.SubElement(o, w('output'), message=n)
        b = etree.SubElement(root, w('binding'), name=n, type=n)
        etree.SubElement(b, s + 'binding', style='document', transport='http://schemas.xmlsoap.org/soap/http')
        o = etree.SubElement(b, w('operation'), name='Op')
        etree.SubElement(o, s + 'operation', soapAction='a' + d)
        i = etree.SubElement(o, w('input'))
        etree.SubElement(i, s + 'body', use='literal')
        i = etree.SubElement(o, w('output'))
        etree.SubElement(i, s + 'body', use='literal')
        sv = etree.SubElement(root, w('service'), name=n)
        pt = etree.SubElement(sv, w('port'), name=n, binding=n)
        etree.SubElement(pt, s + 'address', location='http://host/x' + d)
        return root
    return build


def schema_into(root, imports=(), includes=(), types=()):
    for ns, loc in imports:
        i = etree.SubElement(root, x('import'))
        if ns is not None:
            i.set('namespace', ns)
        if loc is not None:
            i.set('schemaLocation', loc)
    for loc in includes:
        etree.SubElement(root, x('include'), schemaLocation=loc)
    for t in types:
        ct = etree.SubElement(root, x('complexType'), name=t)
        seq = etree.SubElement(ct, x('sequence'))
        etree.SubElement(seq, x('element'), name='f', type='xsd:string')
    for t in types:
        etree.SubElement(root, x('element'), name='el' + t, type=t)
    return root


def schema_doc(tns, imports=(), includes=(), types=()):
    def build():
        root = etree.Element(x('schema'), nsmap={'xsd': XSD})
        if tns is not None:
            root.set('targetNamespace', tns)
        return schema_into(root, imports, includes, types)
    return build


def base_of(where):
    return 'http://host/dir/main.wsdl' if where == 'url' else '/base/dir'


def join(where, d, rel):
    if where == 'url':
        return 'http://host/dir/' + rel
    return '/base/dir/' + rel


def merging(v, shape, root, where, untyped, alike=False):
    """shape: {name: (relative path, [imports as written])}; every document has one item of each kind and, unless untyped, a schema.

    alike: the items of all documents have one name, and their schemas one namespace; the documents have namespaces of their own."""
    bounded()
    shape = dict(shape)
    names = {d: name('name') for d in shape} if alike else unknown_names(shape)
    docs, at = {}, {}
    for d, (rel, imports) in shape.items():
        schema = None if d in untyped else [('urn:same' if alike else 'urn:' + d, (), (), ('T' + d,))]
        at[join(where, d, rel)] = d
        docs[join(where, d, rel)] = wsdl_doc(v, d, names[d], [loc for loc, to in imports], schema, 'urn:t' + d if alike else 'urn:t')
    serve(docs)
    model = MODEL[v]
    main = docs[join(where, root, shape[root][0])]()
    definitions = model.Definitions.parse_xmlelement(main)
    own = {k: list(getattr(definitions, k)) for k in ('messages', 'portTypes', 'bindings', 'services')}
    own_schemas = list(definitions.types.schemas) if definitions.types else []
    wsdl2py.merge_imports(model, definitions, utils.find_xsd_namespaces(main), cwd=base_of(where))
    inside, todo = [], [root]
    while todo:
        d = todo.pop()
        if d in inside:
            continue
        inside.append(d)
        todo.extend([to for loc, to in shape[d][1]])
    marks = {'messages': lambda i: [p.element for p in i.parts], 'portTypes': lambda i: [o.name for o in i.operations],
             'bindings': lambda i: [o.operation.soapAction for o in i.operations], 'services': lambda i: [p.address.location for p in i.ports]}
    first = {'messages': 'e', 'portTypes': 'Op', 'bindings': 'a', 'services': 'http://host/x'}
    for kind in ('messages', 'portTypes', 'bindings', 'services'):
        items = list(getattr(definitions, kind))
        check(len(items) == len(inside), 'every item of importer and imported documents is there once', (kind, len(items), inside))
        for d in inside:
            mine = [i for i in items if marks[kind](i) == [first[kind] + d]]
            check(len(mine) == 1, 'every item of importer and imported documents is there once', (kind, d))
            for i in mine:
                check(identical(i.name, names[d]), 'an item keeps its name', (kind, d))
                if kind == 'portTypes':
                    check(identical(i.operations[0].input.message, names[d]) and identical(i.operations[0].output.message, names[d]),
                          'an item keeps its content', kind)
                elif kind == 'bindings':
                    check(identical(i.type, names[d]), 'an item keeps its content', kind)
                elif kind == 'services':
                    check(identical(i.ports[0].binding, names[d]), 'an item keeps its content', kind)
        for i in own[kind]:
            check(any(i is o for o in items) or root in [to for dd in inside for loc, to in shape[dd][1]],
                  'the items of the importer stay', (kind, i))
    typed = [d for d in inside if d not in untyped]
    schemas = list(definitions.types.schemas) if definitions.types else []
    check(len(schemas) == len(typed), 'every schema is there once', (len(schemas), typed))
    for d in typed:
        check(len([s for s in schemas if s.targetNamespace == ('urn:same' if alike else 'urn:' + d) and [t.name for t in s.complexTypes] == ['T' + d]]) == 1,
              'every schema is there once', d)
    for p, d in at.items():
        reads = len([e for e in events('probe', 'read') if e.args[0] == p])
        check(reads == (1 if d in inside and d != root else reads if d == root else 0), 'each document is read once', (d, reads))
        check(reads <= 1, 'each document is read once', (d, reads))
    check(not events('probe', 'missing'), 'only the locations of documents are read', [e.args for e in events('probe', 'missing')])


# ---------------------------------------------------------------- following references
def links_of(shape, d):
    return shape[d][2]


def typed_schema(parent, d, tns, links):
    root = parent
    if tns is not None:
        root.set('targetNamespace', tns)
    for kind, loc, to, ns in links:
        if kind == 'import':
            i = etree.SubElement(root, x('import'))
            if ns is not None:
                i.set('namespace', ns)
            if loc is not None:
                i.set('schemaLocation', loc)
        elif kind == 'include':
            etree.SubElement(root, x('include'), schemaLocation=loc)
    ct = etree.SubElement(root, x('complexType'), name='T' + d)
    seq = etree.SubElement(ct, x('sequence'))
    etree.SubElement(seq, x('element'), name='f', type='xsd:string')
    return root


def xsd_file(shape, d):
    def build():
        return typed_schema(etree.Element(x('schema'), nsmap={'xsd': XSD}), d, shape[d][1], links_of(shape, d))
    return build


def wsdl_file(v, shape, d):
    """shape[d] = (path, ((schema name, namespace, links), ...), (('wsdl', location, document, None), ...))"""
    def build():
        root = etree.Element(w('definitions'), nsmap={'wsdl': WSDL, 'soap': SOAPNS[v], 'xsd': XSD}, targetNamespace='urn:wsdl')
        for kind, loc, to, ns in links_of(shape, d):
            etree.SubElement(root, w('import'), namespace='urn:i', location=loc)
        if shape[d][1]:
            types = etree.SubElement(root, w('types'))
            for n, tns, links in shape[d][1]:
                typed_schema(etree.SubElement(types, x('schema')), n, tns, links)
        return root
    return build


def place(where, rel):
    if '://' in rel or rel.startswith('/'):
        return rel
    return 'http://host/base/dir/' + rel if where == 'url' else '/base/dir/' + rel


class Options:
    pass


def commandline(main, path, target=None):
    """Runs a program of the package on a document; the bytes it writes."""
    given, written = Options(), []

    class Out:
        def write(self, data):
            written.append(data)

    class Parser:
        def __init__(self, *a, **k):
            pass

        def add_argument(self, *a, **k):
            pass

        def add_mutually_exclusive_group(self, *a, **k):
            return self

        def parse_args(self, *a, **k):
            return given
    given.xsd = given.wsdl = path
    given.output = Out()
    given.target = target
    given.use_wsa = False
    provide('argparse.ArgumentParser', Parser)
    main([path])
    check(len(written) == 1, 'the program writes the code', len(written))
    return written[0].decode('utf-8')


def following(shape, root, where, version=None, program_=False):
    """Code for the document root of a set of documents which refer to each other.

    shape: {document: (place, namespace, links)}, links: (kind, location as written, document, namespace)."""
    bounded()
    shape = dict(shape)
    docs = {}
    wsdls = [d for d in shape if d.startswith('w')]
    for d in shape:
        docs[place(where, shape[d][0])] = wsdl_file(version, shape, d) if d in wsdls else xsd_file(shape, d)
    serve(docs)
    # every schema: documents and the schemas inside of WSDL documents
    edges, spaces, inner = [], {}, {}
    for d in shape:
        if d in wsdls:
            inner[d] = [n for n, tns, links in shape[d][1]]
            for n, tns, links in shape[d][1]:
                spaces[n] = tns
                edges.extend([(n, to, kind) for kind, loc, to, ns in links if to is not None])
                edges.append((d, n, 'types'))
        else:
            spaces[d] = shape[d][1]
        if d not in spaces or d not in wsdls:
            edges.extend([(d, to, kind) for kind, loc, to, ns in links_of(shape, d) if to is not None])
        if d in wsdls:
            edges.extend([(d, to, kind) for kind, loc, to, ns in links_of(shape, d)])
    pairs = [(a, b) for a, b, kind in edges]
    at = place(where, shape[root][0])
    cwd = at if where == 'url' else at[:at.rindex('/')]
    text = None
    for p in docs:
        if p == at:
            text = docs[p]()
    if program_:
        code = commandline(xsd2py.main if version is None else wsdl2py.main, at, 'client')
    elif version is None:
        code = xsd2py.generate_code_from_xsd(text, encoding=None, cwd=cwd)
    else:
        code = wsdl2py.generate_code_from_wsdl(text, 'client', encoding=None, cwd=cwd)
    check(not events('probe', 'missing'), 'only the locations of documents are read', [e.args for e in events('probe', 'missing')])
    source = program(code)
    inside = [d for d in spaces if d == root or reaches(pairs, root, d)]
    for d in spaces:
        n = source.count('class T%s(' % d)
        if d == root and reaches(pairs, d, d):
            check(n >= 1, 'code for the document itself is there', d)
        elif d in inside:
            check(n == 1, 'code for each document is there once', (d, n))
        else:
            check(n == 0, 'no code for documents nothing refers to', d)
    for a, b in pairs:
        if a in inside and a in spaces and b in spaces and not reaches(pairs, b, a):
            check(source.index('class T%s(' % b) < source.index('class T%s(' % a), 'code for a document comes after what it refers to', (a, b))
    made = load_code(code, 'following')
    for d in inside:
        cls = getattr(made, 'T' + d)
        tns = spaces[d]
        one = d
        while tns is None and one is not None:
            by = [a for a, b, kind in edges if b == one and kind == 'include']
            one = by[0] if by else None
            tns = spaces[one] if by else None
        check(cls.SCHEMA.targetNamespace == tns, 'types are in the namespace of their schema, or of the document which includes them',
              (d, cls.SCHEMA.targetNamespace, tns))
    for a, b, kind in edges:
        if a in inside and a in spaces and b in spaces and not reaches(pairs, b, a):
            mine, other = getattr(made, 'T' + a).SCHEMA, getattr(made, 'T' + b).SCHEMA
            there = mine.imports if kind == 'import' else mine.includes
            check(any(s is other for s in there), 'a schema refers to the schemas of the documents it refers to', (a, b, kind))
