"""Fields declared with every combination of the options a declaration can have; see declared_field in probes/model.py."""
import itertools


def options(letters):
    for n in range(len(letters) + 1):
        for o in itertools.combinations(letters, n):
            yield ''.join(o)


def elements():
    for t in 'sSiIb':
        for o in options('otnds'):
            yield f'E:{t}:{o}'
    for t in 'con':
        for o in options('otns'):
            yield f'E:{t}:{o}'


def attributes():
    for t in 'sSiIb':
        for o in options('otnd'):
            yield f'A:{t}:{o}'


def lists():
    for t in 'siIcon':
        for o in options('mnsx'):
            yield f'L:{t}:{o}'
        yield f'L:{t}:u'


def references():
    for t in ('g', 'go', 'gn', 'a', 'ao', 'an'):
        for o in options('ot'):
            yield f'R:{t}:{o}'


def every():
    yield from elements()
    yield from attributes()
    yield from lists()
    yield from references()


def nillable():
    return [k for k in itertools.chain(elements(), lists()) if 'n' in k.split(':')[2]]
