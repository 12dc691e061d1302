from .framework import Scenario

EXPLANATION = (
    'Abstract interpretation of the lookup functions: element lookup over every schema graph shape (imports, includes, chains, diamonds, '
    'cycles, several schemas) for every declared name and for an unknown name; lookups of messages, port types, bindings, parts, operations '
    'and methods with unknown pairwise distinct names, with and without prefix; field lookup over an inheritance chain.')
ASSUMPTIONS = ['local names hold no colon', 'schema graphs up to five schemas stand for deeper ones']
SHAPES = (
    ({'a': ((), ())}, ('a',)),
    ({'a': ((), ()), 'b': ((), ()), 'c': ((), ())}, ('a', 'b', 'c')),
    ({'a': ((), ()), 'b': ((), ()), 'x': ((), ())}, ('a', 'b')),
    ({'a': (('B',), ()), 'B': ((), ())}, ('a',)),
    ({'a': ((), ('B',)), 'B': ((), ())}, ('a',)),
    ({'a': (('b', 'c'), ()), 'b': ((), ()), 'c': ((), ())}, ('a',)),
    ({'a': (('b',), ('c',)), 'b': ((), ()), 'c': ((), ())}, ('a',)),
    ({'a': (('b',), ()), 'b': (('c',), ()), 'c': ((), ('D',)), 'D': ((), ())}, ('a',)),
    ({'a': ((), ('b',)), 'b': ((), ('c',)), 'c': (('d',), ()), 'd': ((), ())}, ('a',)),
    ({'a': (('b', 'c'), ()), 'b': (('D',), ()), 'c': (('D',), ()), 'D': ((), ())}, ('a',)),
    ({'a': (('b',), ()), 'b': (('a',), ())}, ('a',)),
    ({'a': (('b',), ()), 'b': ((), ('c',)), 'c': (('b', 'd'), ()), 'd': ((), ())}, ('a',)),
    ({'a': (('a',), ('b',)), 'b': (('b', 'a'), ('C',)), 'C': ((), ())}, ('b',)),
    ({'A': (('c',), ()), 'B': ((), ('d',)), 'c': ((), ()), 'd': ((), ()), 'x': (('A',), ())}, ('A', 'B')),
    ({'a': ((), ()), 'b': (('c', 'd'), ()), 'c': ((), ('E',)), 'd': ((), ()), 'E': ((), ())}, ('a', 'b')),
)


def frozen(shape):
    return tuple(shape.items())


def scenarios(tier):
    for shape, roots in SHAPES:
        for how in ('service', 'schema'):
            yield Scenario('lookup', 'element_lookup', (frozen(shape), roots, how), rule='an element is found wherever it is declared')
    yield Scenario('lookup', 'falsy_element', rule='an element is found wherever it is declared')
    for v in ('11', '12'):
        for what in ('message', 'portType', 'binding', 'part', 'operation'):
            for how in ('plain', 'prefixed'):
                for n in (0, 1, 3):
                    yield Scenario('lookup', 'by_name', (how, v, what, n), rule='the item with exactly that name, prefix ignored')
        yield Scenario('lookup', 'near_names', (v,), rule='the item with exactly that name, prefix ignored')
        yield Scenario('lookup', 'messages_of', (v,), rule='the message and headers of exactly that operation')
        yield Scenario('lookup', 'single_part', (v,), rule='the only part of a message')
    for n in (0, 1, 3):
        yield Scenario('lookup', 'service_methods', (n,), rule='the operation with exactly that name')
    for c in ('Base', 'Middle', 'Leaf'):
        yield Scenario('lookup', 'field_lookup', (c,), rule='own and inherited fields are found')
    yield Scenario('lookup', 'spec_lookup', rule='an element of a schema document is found')
