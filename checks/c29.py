from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of the code generators (templates included, as programs) over sets of documents which refer to each other: '
    'chains, diamonds, siblings in different directories, cycles, documents including each other, absolute references, schemas inside of '
    'WSDL documents and of imported WSDL documents; as local files and as URLs. Only the documents of the set can be read, so any other '
    'resolution of a location is seen. Obligations: nothing else is read, code for every document reached is there exactly once and after '
    'the documents it refers to, nothing for the others, the generated program loads, and every type is in the namespace of its document '
    'or of the one including it.')
ASSUMPTIONS = ['sets of up to five documents stand for larger ones',
               'documents of different namespaces, or including each other',
               'a document which is referred to by the documents it refers to has no location of its own when it is the one code is generated for']
RULE = 'each document is followed once, relative to where it is'


def imp(loc, d, ns):
    return ('import', loc, d, ns)


def inc(loc, d):
    return ('include', loc, d, None)


A, B, C, D, E = 'urn:a', 'urn:b', 'urn:c', 'urn:d', 'urn:e'
XSDS = {
    'single': (('a', ('a.xsd', A, ())), ('e', ('e.xsd', E, ()))),
    'no namespace': (('a', ('a.xsd', None, ())),),
    'import': (('a', ('a.xsd', A, (imp('b.xsd', 'b', B),))), ('b', ('b.xsd', B, ())), ('e', ('e.xsd', E, ()))),
    'import no namespace': (('a', ('a.xsd', A, (imp('b.xsd', 'b', None),))), ('b', ('b.xsd', None, ()))),
    'include': (('a', ('a.xsd', A, (inc('b.xsd', 'b'),))), ('b', ('b.xsd', A, ()))),
    'chameleon': (('a', ('a.xsd', A, (inc('b.xsd', 'b'),))), ('b', ('b.xsd', None, ()))),
    'chameleon chain': (('a', ('a.xsd', A, (inc('s/b.xsd', 'b'),))), ('b', ('s/b.xsd', None, (inc('c.xsd', 'c'),))), ('c', ('s/c.xsd', None, ()))),
    'chameleon in imported': (('a', ('a.xsd', A, (imp('s/b.xsd', 'b', B),))), ('b', ('s/b.xsd', B, (inc('t/c.xsd', 'c'),))), ('c', ('s/t/c.xsd', None, ()))),
    'chain': (('a', ('a.xsd', A, (imp('s/b.xsd', 'b', B),))), ('b', ('s/b.xsd', B, (imp('t/c.xsd', 'c', C),))),
              ('c', ('s/t/c.xsd', C, (imp('../../u/d.xsd', 'd', D),))), ('d', ('u/d.xsd', D, ()))),
    'chain of includes': (('a', ('a.xsd', A, (inc('s/b.xsd', 'b'),))), ('b', ('s/b.xsd', A, (inc('t/c.xsd', 'c'),))),
                          ('c', ('s/t/c.xsd', A, (inc('../../u/d.xsd', 'd'),))), ('d', ('u/d.xsd', A, ()))),
    'up': (('a', ('x/y/a.xsd', A, (imp('../b.xsd', 'b', B), imp('../../c.xsd', 'c', C)))), ('b', ('x/b.xsd', B, (imp('z/d.xsd', 'd', D),))),
           ('c', ('c.xsd', C, ())), ('d', ('x/z/d.xsd', D, ()))),
    'siblings': (('a', ('a.xsd', A, (imp('s/b.xsd', 'b', B), imp('t/c.xsd', 'c', C), inc('d.xsd', 'd')))), ('b', ('s/b.xsd', B, (imp('e.xsd', 'e', E),))),
                 ('c', ('t/c.xsd', C, ())), ('d', ('d.xsd', A, ())), ('e', ('s/e.xsd', E, ()))),
    'same names': (('a', ('x.xsd', A, (imp('s/x.xsd', 'b', B), imp('t/x.xsd', 'c', C)))), ('b', ('s/x.xsd', B, (imp('t/x.xsd', 'd', D),))),
                   ('c', ('t/x.xsd', C, ())), ('d', ('s/t/x.xsd', D, ()))),
    'diamond': (('a', ('a.xsd', A, (imp('s/b.xsd', 'b', B), imp('t/c.xsd', 'c', C)))), ('b', ('s/b.xsd', B, (imp('../u/d.xsd', 'd', D),))),
                ('c', ('t/c.xsd', C, (imp('./../u/d.xsd', 'd', D),))), ('d', ('u/d.xsd', D, ()))),
    'twice': (('a', ('a.xsd', A, (imp('b.xsd', 'b', B), imp('./b.xsd', 'b', B)))), ('b', ('b.xsd', B, ()))),
    'cycle': (('a', ('a.xsd', A, (imp('b.xsd', 'b', B),))), ('b', ('b.xsd', B, (imp('s/c.xsd', 'c', C),))), ('c', ('s/c.xsd', C, (imp('../b.xsd', 'b', B),)))),
    'cycle of includes': (('a', ('a.xsd', A, (inc('b.xsd', 'b'),))), ('b', ('b.xsd', A, (inc('s/c.xsd', 'c'),))), ('c', ('s/c.xsd', A, (inc('../b.xsd', 'b'),)))),
    'back': (('a', ('a.xsd', A, (imp('s/b.xsd', 'b', B),))), ('b', ('s/b.xsd', B, (imp('../a.xsd', 'a', A), imp('c.xsd', 'c', C)))), ('c', ('s/c.xsd', C, ()))),
    'self': (('a', ('a.xsd', A, (imp('b.xsd', 'b', B),))), ('b', ('b.xsd', B, (inc('b.xsd', 'b'),)))),
    'nowhere': (('a', ('a.xsd', A, (imp(None, None, 'urn:none'), imp('b.xsd', 'b', B)))), ('b', ('b.xsd', B, (imp(None, None, 'urn:other'),)))),
    'absolute': (('a', ('a.xsd', A, (imp('http://far/x/b.xsd', 'b', B), imp('s/e.xsd', 'e', E)))), ('b', ('http://far/x/b.xsd', B, (imp('../y/c.xsd', 'c', C), imp('d.xsd', 'd', D)))),
                 ('c', ('http://far/y/c.xsd', C, ())), ('d', ('http://far/x/d.xsd', D, ())), ('e', ('s/e.xsd', E, ()))),
}
LOCAL = {
    'rooted': (('a', ('a.xsd', A, (imp('/else/b.xsd', 'b', B), imp('s/d.xsd', 'd', D)))), ('b', ('/else/b.xsd', B, (imp('c.xsd', 'c', C),))), ('c', ('/else/c.xsd', C, ())),
               ('d', ('s/d.xsd', D, ()))),
    'far up': (('a', ('a.xsd', A, (imp('../b.xsd', 'b', B),))), ('b', ('/base/b.xsd', B, (imp('dir/c.xsd', 'c', C),))), ('c', ('c.xsd', C, ()))),
}
REMOTE = {
    'rooted': (('a', ('a.xsd', A, (imp('/else/b.xsd', 'b', B), imp('s/d.xsd', 'd', D)))), ('b', ('http://host/else/b.xsd', B, (imp('c.xsd', 'c', C),))),
               ('c', ('http://host/else/c.xsd', C, ())), ('d', ('s/d.xsd', D, ()))),
    'query': (('a', ('a?xsd=1', A, (imp('a?xsd=2', 'b', B),))), ('b', ('a?xsd=2', B, (imp('a?xsd=3', 'c', C),))), ('c', ('a?xsd=3', C, ()))),
}
WSDLS = {
    'one schema': (('w', ('w.wsdl', (('a', A, (imp('s/b.xsd', 'b', B),)),), ())), ('b', ('s/b.xsd', B, (imp('t/c.xsd', 'c', C),))), ('c', ('s/t/c.xsd', C, ()))),
    'two schemas': (('w', ('w.wsdl', (('a', A, (imp('s/b.xsd', 'b', B), imp(None, 'd', D))), ('d', D, (imp('s/b.xsd', 'b', B), imp('t/c.xsd', 'c', C)))), ())),
                    ('b', ('s/b.xsd', B, ())), ('c', ('t/c.xsd', C, ()))),
    'include': (('w', ('w.wsdl', (('a', A, (inc('s/b.xsd', 'b'),)),), ())), ('b', ('s/b.xsd', None, (inc('c.xsd', 'c'),))), ('c', ('s/c.xsd', None, ()))),
    'imported': (('w', ('w.wsdl', (), (('wsdl', 's/v.wsdl', 'wv', None),))), ('wv', ('s/v.wsdl', (('a', A, (imp('t/b.xsd', 'b', B), imp('../c.xsd', 'c', C))),), ())),
                 ('b', ('s/t/b.xsd', B, (imp('../d.xsd', 'd', D),))), ('c', ('c.xsd', C, ())), ('d', ('s/d.xsd', D, ()))),
    'both': (('w', ('x/w.wsdl', (('e', E, (imp('../s/t/b.xsd', 'b', B),)),), (('wsdl', '../s/v.wsdl', 'wv', None),))),
             ('wv', ('s/v.wsdl', (('a', A, (imp('t/b.xsd', 'b', B), imp('d.xsd', 'd', D))),), ())), ('b', ('s/t/b.xsd', B, ())), ('d', ('s/d.xsd', D, ()))),
    'nested': (('w', ('w.wsdl', (), (('wsdl', 's/v.wsdl', 'wv', None),))), ('wv', ('s/v.wsdl', (), (('wsdl', 't/u.wsdl', 'wu', None),))),
               ('wu', ('s/t/u.wsdl', (('a', A, (imp('b.xsd', 'b', B), inc('../../c.xsd', 'c'))),), ())), ('b', ('s/t/b.xsd', B, ())), ('c', ('c.xsd', A, ()))),
    'far': (('w', ('w.wsdl', (), (('wsdl', 'http://far/s/v.wsdl', 'wv', None),))), ('wv', ('http://far/s/v.wsdl', (('a', A, (imp('../b.xsd', 'b', B),)),), ())),
            ('b', ('http://far/b.xsd', B, ()))),
}


def scenarios(tier):
    for where, sets in (('file', {**XSDS, **LOCAL}), ('url', {**XSDS, **REMOTE})):
        for n, shape in sets.items():
            yield Scenario('codegen', 'following', (shape, 'a', where), label=f'following({n}, {where})', rule=RULE)
            yield Scenario('codegen', 'following', (shape, 'a', where, None, True), label=f'following({n}, {where}, program)', rule=RULE)
    for v in ('11', '12'):
        for where in ('file', 'url'):
            for n, shape in WSDLS.items():
                yield Scenario('codegen', 'following', (shape, 'w', where, v), label=f'following(WSDL {v}, {n}, {where})', rule=RULE)
                yield Scenario('codegen', 'following', (shape, 'w', where, v, True), label=f'following(WSDL {v}, {n}, {where}, program)', rule=RULE)
