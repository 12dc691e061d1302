from itertools import combinations

from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of reorder_schemas over every import graph of up to three schemas and selected larger ones (chains, diamonds, '
    'cycles, two schemas of one namespace), of merge_imports over every shape of documents importing each other (nested, diamond, looped, '
    'with and without types, local and remote) whose items have unknown distinct names, and of walk_schema_tree over schema graphs with '
    'cycles and shared locations. Obligations: nothing lost, nothing twice, imported before importer unless they import each other, '
    'termination (a call chain deeper than the finite input allows is reported).')
ASSUMPTIONS = ['graphs of up to five documents stand for larger ones', 'two items whose XML texts are equal are one item']
PAIRS3 = [(a, b) for a in range(3) for b in range(3) if a != b]
ALL3 = tuple(g for n in range(7) for g in combinations(PAIRS3, n))
LARGE = (
    ((0, 1), (1, 2), (2, 3), (3, 4)), ((4, 3), (3, 2), (2, 1), (1, 0)), ((0, 1), (0, 2), (1, 3), (2, 3), (3, 4)),
    ((0, 4), (4, 2), (2, 1)), ((0, 1), (1, 0), (2, 0), (3, 2), (3, 4)), ((0, 1), (1, 2), (2, 0), (3, 2), (4, 3)),
    ((0, 0), (1, 0), (1, 1)), ((0, 3), (1, 3), (2, 3), (4, 0), (4, 1)), ((1, 0), (2, 0), (0, 3), (3, 4), (4, 3)),
    ((2, 4), (4, 0), (0, 1), (1, 3)), (),
)
RULE_ORDER = 'reordering keeps every schema, imported ones first'
RULE_WALK = 'each distinct location is visited once'
RULE_MERGE = 'merging keeps every item once'

# name -> (location, imports, includes)
TREES = (
    ((('a', (None, ('b',), ())), ('b', ('b.xsd', (), ()))), ('a',)),
    ((('a', (None, (), ('b',))), ('b', ('b.xsd', ('c',), ())), ('c', ('c.xsd', (), ()))), ('a',)),
    ((('a', ('a.xsd', ('b', 'c'), ())), ('b', ('b.xsd', ('d',), ())), ('c', ('c.xsd', (), ('d',))), ('d', ('d.xsd', (), ()))), ('a',)),
    ((('a', ('a.xsd', ('b',), ())), ('b', ('b.xsd', ('a',), ()))), ('a',)),
    ((('a', ('a.xsd', ('b',), ())), ('b', ('b.xsd', (), ('c',))), ('c', ('c.xsd', ('b', 'e'), ())), ('e', ('e.xsd', (), ()))), ('a',)),
    ((('a', (None, ('b',), ('c',))), ('b', ('b.xsd', (), ())), ('c', ('c.xsd', (), ())), ('d', ('d.xsd', ('c', 'e'), ())),
      ('e', ('e.xsd', (), ()))), ('a', 'd')),
    ((('a', (None, ('b', 'c'), ())), ('b', ('same.xsd', (), ())), ('c', ('same.xsd', (), ()))), ('a',)),
    ((('a', (None, (), ())),), ('a',)),
    ((('a', ('a.xsd', (), ('a',))),), ('a',)),
    ((('a', (None, ('b',), ())), ('b', ('b.xsd', ('c',), ())), ('c', ('c.xsd', ('d',), ())), ('d', ('d.xsd', (), ('e',))), ('e', ('e.xsd', (), ()))), ('a',)),
)
NOWHERE = (
    ((('a', (None, ('b', 'c'), ())), ('b', (None, (), ())), ('c', (None, ('d',), ())), ('d', ('d.xsd', (), ()))), ('a',)),
    ((('a', (None, ('b',), ('c',))), ('b', (None, ('c',), ())), ('c', (None, ('b', 'd'), ())), ('d', ('d.xsd', (), ()))), ('a',)),
)
SINGLE = (('a', ('main.wsdl', ())),)
SIMPLE = (('a', ('main.wsdl', (('b.wsdl', 'b'),))), ('b', ('b.wsdl', ())))
TWO = (('a', ('main.wsdl', (('b.wsdl', 'b'), ('c.wsdl', 'c')))), ('b', ('b.wsdl', ())), ('c', ('c.wsdl', ())))
NESTED = (('a', ('main.wsdl', (('b.wsdl', 'b'),))), ('b', ('b.wsdl', (('c.wsdl', 'c'),))), ('c', ('c.wsdl', ())))
DIAMOND = (('a', ('main.wsdl', (('b.wsdl', 'b'), ('c.wsdl', 'c')))), ('b', ('b.wsdl', (('d.wsdl', 'd'),))), ('c', ('c.wsdl', (('d.wsdl', 'd'),))),
           ('d', ('d.wsdl', ())))
LOOPED = (('a', ('main.wsdl', (('b.wsdl', 'b'),))), ('b', ('b.wsdl', (('c.wsdl', 'c'),))), ('c', ('c.wsdl', (('b.wsdl', 'b'),))))
SELF = (('a', ('main.wsdl', (('b.wsdl', 'b'),))), ('b', ('b.wsdl', (('b.wsdl', 'b'),))))
BACK = (('a', ('main.wsdl', (('b.wsdl', 'b'),))), ('b', ('b.wsdl', (('main.wsdl', 'a'),))))
TWICE = (('a', ('main.wsdl', (('b.wsdl', 'b'), ('b.wsdl', 'b')))), ('b', ('b.wsdl', ())))
DIRS = (('a', ('main.wsdl', (('s/b.wsdl', 'b'), ('c.wsdl', 'c')))), ('b', ('s/b.wsdl', (('t/d.wsdl', 'd'), ('../c.wsdl', 'c')))),
        ('c', ('c.wsdl', (('s/t/d.wsdl', 'd'),))), ('d', ('s/t/d.wsdl', (('../../c.wsdl', 'c'),))))
SHAPES = (SINGLE, SIMPLE, TWO, NESTED, DIAMOND, LOOPED, SELF, BACK, TWICE, DIRS)


def scenarios(tier):
    for i in range(0, len(ALL3), 8):
        for twins in (False, True):
            yield Scenario('codegen', 'ordering', (3, ALL3[i:i + 8], twins, True), label=f'ordering(3 schemas, graphs {i}..., twins {twins})', rule=RULE_ORDER)
    for g in LARGE:
        for twins in (False, True):
            yield Scenario('codegen', 'ordering', (5, (g,), twins, True), rule=RULE_ORDER)
            yield Scenario('codegen', 'ordering', (5, (g,), twins, False), rule=RULE_ORDER)
    if tier == 'thorough':
        pairs4 = [(a, b) for a in range(4) for b in range(4) if a != b]
        all4 = [g for n in range(13) for g in combinations(pairs4, n)]
        for i in range(0, len(all4), 32):
            yield Scenario('codegen', 'ordering', (4, tuple(all4[i:i + 32]), False, True), label=f'ordering(4 schemas, graphs {i}...)', rule=RULE_ORDER)
    for shape, roots in TREES + NOWHERE:
        yield Scenario('codegen', 'tree_walk', (shape, roots, None), rule=RULE_WALK)
    for v in ('11', '12'):
        for shape in SHAPES:
            for where in ('file', 'url'):
                yield Scenario('codegen', 'merging', (v, shape, 'a', where, ()), rule=RULE_MERGE)
                yield Scenario('codegen', 'merging', (v, shape, 'a', where, ('a',)), rule=RULE_MERGE)
                yield Scenario('codegen', 'merging', (v, shape, 'a', where, (), True), rule=RULE_MERGE)
            if len(shape) > 1:
                yield Scenario('codegen', 'merging', (v, shape, 'a', 'file', ('b',)), rule=RULE_MERGE)
                yield Scenario('codegen', 'merging', (v, shape, 'a', 'file', tuple(d for d, _ in shape)), rule=RULE_MERGE)
