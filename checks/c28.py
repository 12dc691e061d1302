from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of the code generators (templates included, as programs) over schema and WSDL documents in which every text '
    'which is not a name (namespaces, facets, actions, locations) and every number is unknown; the generated program, its unknown texts '
    'as placeholders, is then interpreted as well. Obligations: each class, base, field, facet, bound, use, element, schema attribute, '
    'method and service attribute it ends up with is the one the document declares, in the order of the document, and nothing else.')
ASSUMPTIONS = ['names of types, fields and operations are constants of each kind (capitals, keywords, dashes and dots), others behave the same',
               'constructs the library reads: no unions, lists, wildcards, attribute references, group references, anonymous complex types of fields',
               'names of one document stay different when made usable in Python, and do not start with an underscore where the library uses that name']
RULE = 'generated code declares what the document declares'
S, I = ('xsd', 'string'), ('xsd', 'int')
PREFIXES = (('xs', 't'), ('xsd', 'x'), (None, 't'), ('xs', None))
BUILTINS = ('string', 'boolean', 'date', 'dateTime', 'time', 'decimal', 'double', 'float', 'integer', 'nonNegativeInteger', 'nonPositiveInteger',
            'negativeInteger', 'positiveInteger', 'long', 'int', 'short', 'byte', 'unsignedLong', 'unsignedInt', 'unsignedShort', 'unsignedByte',
            'anyURI', 'QName', 'NMTOKEN', 'NMTOKENS', 'base64Binary', 'duration')
NAMES = ('plain', 'Capital', 'camelCase', 'UPPER', 'class', 'None', 'with-dash.dot', '_under', 'x1')
MEMBERS = ('accept', 'create', 'parse_xmlelement', 'parsexml', 'render', 'xml', 'SCHEMA', 'INDICATOR', 'INHERITANCE', 'xsd', 'cls', 'instance')
BOUNDS = tuple((a, b) for a in (None, '0', '1', 'n') for b in (None, '1', 'n', 'unbounded') if not (a == 'n' and b in (None, '1')))


def f(n, what=S, least=None, most=None, nil=None):
    return (n, what, least, most, nil)


def ct(n, container, fields, attrs=(), refs=(), derived=None):
    return (n, container, tuple(fields), tuple(attrs), tuple(refs), derived)


def inline(base, *facets):
    return ('inline', base, facets)


TEXTS = ('length', 'minLength', 'maxLength', 'pattern', 'whiteSpace', ('enumeration', 3))
NUMBERS = ('minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive', 'totalDigits', 'fractionDigits', ('enumeration', 2))


def specs():
    code = ('code', S, (('enumeration', 2), 'maxLength'))
    amount = ('amount', ('xsd', 'decimal'), ('minInclusive', 'maxExclusive'))
    yield 'basic', dict(simple=(code, amount), complex=(ct('item', 'sequence', (f('id', I), f('code', ('own', 'code'), '0', None, 'true'),
                                                                              f('more', ('own', 'amount'), '0', 'unbounded')), (('kind', S, 'required'),)),),
                        elements=(('thing', ('own', 'item'), None, False),))
    yield 'empty', dict()
    for form in ('qualified', 'unqualified'):
        yield form, dict(form=form, complex=(ct('item', 'sequence', (f('a'),)),), elements=(('thing', ('own', 'item'), None, False),))
    for container in ('sequence', 'choice', 'all'):
        yield f'bounds in {container}', dict(simple=(code,), complex=(
            ct('item', container, [f('f%d' % i, (S, I, ('own', 'code'))[i % 3], a, b) for i, (a, b) in enumerate(BOUNDS) if container != 'all' or b in (None, '1')]),))
        yield f'{container} of nothing', dict(complex=(ct('item', container, (), (('a', S, None),)), ct('other', container, ())))
    for nil in ('true', '1', 'false', '0'):
        yield f'nillable {nil}', dict(simple=(code,), complex=(ct('item', 'sequence', (f('a', S, None, None, nil), f('b', ('own', 'code'), '0', None, nil),
                                                                                    f('c', I, '0', 'unbounded', nil), f('d', inline(S, 'length'), None, 'n', nil))),),
                                      elements=(('e', S, nil, False), ('i', inline(I, 'maxInclusive'), nil, False), ('o', ('own', 'item'), nil, True),
                                                ('c', ct('', 'sequence', (f('a'),))[0:0] + ('complex',) + ct('c', 'sequence', (f('a'),))[1:], nil, False)))
    yield 'attributes', dict(simple=(code,), attrgroups=(('shared', (('a', S, None), ('b', I, 'required'), ('c', ('own', 'code'), 'optional'))),
                                                         ('other', (('p', inline(S, 'maxLength'), 'prohibited'),)), ('none', ())),
                             complex=(ct('item', 'sequence', (f('x'),), (('a1', S, None), ('a2', I, 'optional'), ('a3', ('own', 'code'), 'required'), ('a4', S, 'prohibited'),
                                                                       ('a5', inline(('own', 'code'), 'minLength'), 'required')), ('shared', 'other')),
                                      ct('bare', None, (), (('a', S, None),)), ct('more', 'choice', (f('z'),), (), ('other',)), ct('nothing', None, ())))
    yield 'groups', dict(simple=(code,), groups=(('pair', (f('a'), f('b', I, '0', 'unbounded'), f('c', ('own', 'code'), '0', None, 'true'))), ('one', (f('x', inline(I, 'minInclusive')),)),
                                                 ('none', ())))
    for kind in ('extension', 'restriction'):
        for container in ('sequence', 'choice', 'all', None):
            yield f'{kind} with {container}', dict(simple=(code,), attrgroups=(('shared', (('s', S, None),)),), complex=(
                ct('base', 'sequence', (f('a'), f('b', I, '0')), (('k', S, 'required'),)),
                ct('item', container, (f('c', ('own', 'code')), f('d', S, '0', 'unbounded')) if container else (), (('l', I, None),), ('shared',), (kind, 'base')),
                ct('last', 'sequence', (f('e'),), (), (), (kind, 'item'))), elements=(('thing', ('own', 'last'), None, False),))
    # every container with and without attributes, groups of attributes and a base
    for kind in (None, 'extension', 'restriction'):
        made = []
        for container in ('sequence', 'choice', 'all', None):
            for attrs in ((), (('l', I, None),)):
                for refs in ((), ('shared',)):
                    for fields in ((), (f('c', ('own', 'code')), f('d', S, '0')))[:1 if container is None else 2]:
                        made.append(ct('t%d' % len(made), container, fields, attrs, refs, (kind, 'base') if kind else None))
        yield f'each content, {kind}', dict(simple=(code,), attrgroups=(('shared', (('s', S, None),)),), complex=(
            ct('base', 'sequence', (f('a'), f('b', I, '0')), (('k', S, 'required'),)), *made),
            elements=tuple((t[0] + 'e', ('complex',) + t[1:], None, False) for t in made))
    yield 'content of elements', dict(simple=(code,), attrgroups=(('shared', (('s', S, None),)),), complex=(ct('base', 'sequence', (f('a'),)),), elements=(
        ('one', ('complex',) + ct('', 'sequence', (f('a'), f('b', ('own', 'base'), '0', 'unbounded')), (('k', S, 'required'),), ('shared',))[1:], None, False),
        ('two', ('complex',) + ct('', 'choice', (f('a', ('own', 'code')), f('b')))[1:], None, True),
        ('three', ('complex',) + ct('', 'all', (f('a', ('own', 'code')), f('b')))[1:], 'true', False),
        ('four', ('complex',) + ct('', 'sequence', (f('z'),), (), (), ('extension', 'base'))[1:], None, False),
        ('five', ('complex',) + ct('', None, ())[1:], None, False)))
    yield 'elements', dict(simple=(code,), complex=(ct('item', 'sequence', (f('a'),)),), elements=(
        ('a', S, None, False), ('b', ('own', 'code'), None, True), ('c', ('own', 'item'), 'true', True), ('d', inline(S, *TEXTS), None, True), ('e', inline(('xsd', 'decimal'), *NUMBERS), 'true', False),
        ('f', inline(('own', 'code'), 'pattern'), None, False)))
    yield 'names', dict(simple=tuple(('s' + n if n != 'class' else 'class', S, ('maxLength',)) for n in NAMES if n not in ('None',)),
                        attrgroups=tuple(('g' + n, (('a', S, None),)) for n in NAMES), groups=tuple(('h' + n, (f('a'),)) for n in NAMES),
                        complex=tuple(ct('t' + n, 'sequence', [f(m) for m in NAMES], [('a' + n, S, None)], ['g' + n]) for n in NAMES)
                        + (ct('None', 'sequence', [f('s' + n, ('own', 's' + n if n != 'class' else 'class')) for n in NAMES if n != 'None'], [(n, S, None) for n in NAMES]),
                           ct('types', 'sequence', [f('f' + n, ('own', 't' + n)) for n in NAMES]), ct('import', 'choice', [f(n, S, '0', 'unbounded') for n in NAMES])),
                        elements=tuple((n, ('own', 't' + n), None, False) for n in NAMES))
    yield 'fields named like types', dict(simple=(('Code', S, ('length',)), ('Kind', I, ('maxInclusive',))), complex=(
        ct('Item', 'sequence', (f('Code', ('own', 'Code')), f('Kind', ('own', 'Kind'), '0', 'unbounded'), f('other', ('own', 'Code'), '0'), f('Item', ('own', 'Item'), '0'))),
        ct('Pair', 'sequence', (f('Item', ('own', 'Item')), f('x', inline(('own', 'Code'), 'pattern'))), (('Code', ('own', 'Code'), 'required'), ('Kind', inline(('own', 'Kind'), 'minInclusive'), None))),
        ct('Later', 'sequence', (f('Pair', ('own', 'Pair'), '0', 'unbounded'), f('more', ('own', 'Last')))), ct('Last', 'choice', (f('a'),))),
        groups=(('Group', (f('Code', ('own', 'Code')), f('c', ('own', 'Code')))),), elements=(('Item', ('own', 'Pair'), None, False),))
    yield 'attributes named like types', dict(simple=(('Code', S, ('length',)), ('Kind', I, ('maxInclusive',))), attrgroups=(
        ('Group', (('Code', S, None), ('a', ('own', 'Code'), 'required'), ('Kind', ('own', 'Kind'), None), ('b', inline(('own', 'Kind'), 'minInclusive'), None))),
        ('Other', (('Code', ('own', 'Kind'), None), ('Kind', ('own', 'Code'), None)))),
        complex=(ct('Item', None, (), (('Code', I, None), ('Kind', ('own', 'Code'), 'required'), ('c', ('own', 'Kind'), None)), ('Group',)),))
    for first, second in ((MEMBERS[::2], MEMBERS[1::2]), (MEMBERS[1::2], MEMBERS[::2])):
        yield 'fields named like members, %s first' % first[0], dict(simple=(('xmls', S, ('length',)), ('Renders', I, ('maxInclusive',))), attrgroups=(('create', tuple((n, S, None) for n in MEMBERS)),),
            groups=(('xsd', tuple(f(n, S) for n in MEMBERS)),), complex=(
                ct('item', 'sequence', [f(n, S, *((None, None), ('0', None), ('0', 'unbounded'))[i % 3]) for i, n in enumerate(first)] + [f('plain', ('own', 'xmls')), f('other', ('own', 'Renders'))], [(n, I, None) for n in second]),
                ct('derived', 'sequence', [f('x1', ('own', 'item'))], [], [], ('extension', 'item')),
                ct('part', 'choice', [f(n, ('own', 'item')) for n in second], [(n, ('own', 'xmls'), 'required') for n in first])),
            elements=(('render', ('complex',) + ct('', 'sequence', [f(n) for n in MEMBERS])[1:], None, False), ('xml', ('own', 'part'), None, False)))
    for container in ('sequence', 'choice', 'all'):
        yield f'attributes named like elements of {container}', dict(complex=(
            ct('item', container, (f('id', I), f('with-dash', S, '0'), f('class'), f('name')), (('id', S, 'required'), ('kind', I, None), ('with-dash', S, None), ('class', I, None))),
            ct('more', container, (f('od', I), f('x', ('own', 'item'))), (('od', S, 'required'), ('kinds', I, None)), (), ('extension', 'item'))),
            elements=(('e', ('complex',) + ct('', container, (f('id', I),), (('id', S, None),))[1:], None, False),))
    yield 'later and recursive types', dict(complex=(
        ct('a', 'sequence', (f('b', ('own', 'b')), f('me', ('own', 'a'), '0'), f('c', ('own', 'c'), '0', 'unbounded'))), ct('b', 'choice', (f('a', ('own', 'a')), f('c', ('own', 'c')))),
        ct('c', 'all', (f('b', ('own', 'b'), '0'), f('e', ('own', 'e'), '0')), (('k', ('own', 'z'), None),)), ct('e', None, ())), simple=(('z', S, ('minLength',)),))
    yield 'order of the document', dict(order=('elements', 'complex', 'groups', 'attrgroups', 'simple'), simple=(code, amount), attrgroups=(('shared', (('s', ('own', 'code'), None),)),),
                                        groups=(('g', (f('a', ('own', 'code')),)),), complex=(ct('item', 'sequence', (f('a', ('own', 'code')), f('b', ('own', 'amount'), '0')), (), ('shared',)),),
                                        elements=(('e', ('own', 'item'), None, False), ('g2', ('own', 'code'), None, False)))
    yield 'derived before base', dict(complex=(ct('last', 'sequence', (f('e'),), (), (), ('extension', 'item')), ct('item', 'sequence', (f('c'),), (), (), ('extension', 'base')),
                                               ct('base', 'sequence', (f('a'), f('b', I, '0')))))
    yield 'restricted before base', dict(simple=(('c', ('own', 'b'), ('pattern',)), ('b', ('own', 'a'), ('maxLength',)), ('a', S, ('minLength', 'whiteSpace'))))
    yield 'builtin types', dict(complex=(ct('item', 'sequence', [f('f' + n, ('xsd', n)) for n in BUILTINS], [('a' + n, ('xsd', n), None) for n in BUILTINS]),),
                                elements=tuple(('e' + n, ('xsd', n), None, False) for n in BUILTINS))
    yield 'types named like builtin types', dict(simple=(('string', S, ('length',)), ('int', I, ('maxInclusive',))),
                                                complex=(ct('date', 'sequence', (f('a', ('own', 'string')), f('b', S), f('c', ('own', 'int')), f('d', I))),),
                                                elements=(('decimal', ('own', 'date'), None, False), ('x', ('xsd', 'date'), None, False)))
    for n, base in (('string', S), ('anyURI', ('xsd', 'anyURI')), ('NMTOKEN', ('xsd', 'NMTOKEN'))):
        some = tuple(x for x in TEXTS if n != 'NMTOKEN' or x not in ('pattern', 'whiteSpace'))
        rest = tuple(x for x in some if x != 'pattern')
        yield f'facets of {n}', dict(simple=(('t', base, some), ('u', base, ()), ('d', ('own', 't'), ('maxLength',)), ('e', ('own', 't'), ())),
                                     complex=(ct('c', 'sequence', [f('f%d' % i, inline(base, x)) for i, x in enumerate(rest)] + [f('own', inline(('own', 't'), 'minLength', ('enumeration', 1)))],
                                                 [('a', inline(base, *rest), None)]),))
        yield f'facets of {n} in place', dict(simple=(('t', base, ('minLength',)), ('d', ('own', 't'), ('pattern', 'maxLength'))), complex=(ct('c', 'choice', [f('a', inline(base, *some))]),))
        yield f'facets of {n} of attributes', dict(simple=(('t', base, ('minLength',)),), complex=(ct('c', 'all', [], [('a', inline(base, *some), None), ('b', inline(('own', 't'), 'pattern'), None)]),))
    for n in ('decimal', 'double', 'float', 'integer', 'int', 'positiveInteger', 'unsignedByte'):
        base = ('xsd', n)
        facets = NUMBERS if n == 'decimal' else tuple(x for x in NUMBERS if x != 'fractionDigits' and (n not in ('double', 'float') or x != 'totalDigits'))
        yield f'facets of {n}', dict(simple=(('t', base, facets), ('u', base, ()), ('p', base, ('pattern',)), ('d', ('own', 't'), ('maxInclusive', 'minInclusive')), ('e', ('own', 't'), ())),
                                     complex=(ct('c', 'sequence', [f('f%d' % i, inline(base, x)) for i, x in enumerate(facets)] + [f('own', inline(('own', 't'), ('enumeration', 1)))],
                                                 [('a', inline(base, *facets), None)]),))


def op(n, i='in', o='out', hi=(), ho=(), action=True, style=None):
    return (n, i if isinstance(i, tuple) else ('element', i), o if isinstance(o, tuple) else ('element', o), tuple(hi), tuple(ho), action, style)


def port(n, *ops, version=None, location='http://host:80/path/x?wsdl=1', transport=None, service='svc'):
    return (service, n, version, location, transport, ops)


def schema(*elements):
    return tuple(sorted(dict(complex=(ct('body', 'sequence', (f('a'),)),), elements=tuple(e if isinstance(e, tuple) else (e, ('complex',) + ct('', 'sequence', (f('a'),))[1:], None, False)
                                                                                    for e in elements)).items()))


def services():
    one = (schema('in', 'out', 'head', 'foot', 'other'),)
    yield 'basic', dict(schemas=one, ports=(port('P', op('op')),))
    yield 'operations', dict(schemas=one, ports=(port('P', op('first'), op('second', 'out', 'in', action=False), op('third', 'other', 'other', style='document'), op('fourth', 'in', 'in', action=False, style='rpc')),))
    yield 'headers', dict(schemas=one, ports=(port('P', op('a', hi=[('H', 'head', 'head')]), op('b', ho=[('H', 'foot', 'foot')]), op('c', hi=[('H', 'head', 'head'), ('H', 'foot', 'foot')], ho=[('J', 'x', 'other')]), op('d')),))
    yield 'typed parts', dict(schemas=(tuple(sorted(dict(complex=(ct('body', 'sequence', (f('a'),)), ct('reply', 'choice', (f('a'),)))).items())),), ports=(port('P', op('a', ('type', 'body'), ('type', 'reply')), op('b', ('type', 'reply'), ('type', 'reply'))),))
    yield 'names', dict(schemas=(schema(*('e' + n for n in NAMES), 'import', 'in-out'),),
                        ports=(port('P', *(op('o' + n, 'e' + n, 'e' + n, hi=[('H' + n, 'h' + n, 'e' + n)]) for n in NAMES), op('class', 'import', 'in-out')), port('with-dash.dot', op('op', 'in-out', 'import')),
                               port('None', op('None', 'ex1', 'ex1'))))
    yield 'locations', dict(schemas=one, ports=tuple(port('P%d' % i, op('op'), location=l) for i, l in enumerate(
        ('https://example.org/a/b', 'http://host/', 'http://host:8080/x.asmx', 'http://user@host/svc?a=b&c=d', 'http://10.0.0.1:1/x/y/z;p'))))
    yield 'ports', dict(schemas=one, ports=(port('P', op('a'), op('b', 'other')), port('Q', op('a', 'other', 'in'), op('c')), port('R', op('a', 'head', 'foot'), service='second')))
    yield 'other transport', dict(schemas=one, ports=(port('P', op('a')), port('Q', op('b'), transport='urn:smtp'), port('R', op('c'))))
    yield 'schemas', dict(schemas=(schema('in', 'head'), schema('out'), schema(('other', S, None, False))), ports=(port('P', op('a', hi=[('H', 'head', 'head')]), op('b', 'in', 'in')),))
    yield 'order of the document', dict(order=('services', 'bindings', 'portTypes', 'messages', 'types'), schemas=one, ports=(port('P', op('op', hi=[('H', 'head', 'head')])),))


WPREFIXES = (('xs', 't', 'w'), ('xsd', 't', None))


def scenarios(tier):
    for n, spec in specs():
        for p in PREFIXES if n in ('basic', 'attributes', 'elements', 'extension with sequence', 'names', 'types named like builtin types', 'facets of string') or tier != 'quick' else PREFIXES[:1]:
            yield Scenario('declared', 'declares', (tuple(sorted(spec.items())), p), label=f'declares({n}, {p[0]}/{p[1]})', rule=RULE)
    for n, spec in services():
        for v in ('11', '12'):
            for target in ('client', 'server'):
                for p in WPREFIXES if n == 'basic' or tier != 'quick' else WPREFIXES[:1]:
                    yield Scenario('declared', 'serves', (tuple(sorted(spec.items())), v, target, p), label=f'serves({n}, {v}, {target}, {p[2]})', rule=RULE)
