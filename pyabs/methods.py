"""Methods and attributes of built-in values (strings, containers, XML elements, match objects, numbers)."""
import decimal
import string as _string

from . import ops
from .facts import ZERO
from .values import (AbsMap, AbsRaise, AColl, ADict, AList, Analysis, ASet, AView, Bound, Cat, Cls, Cut, Extern, Iter, MapKeys,
                     MatchObj, NATIVE, Native, Obj, Regex, Slice, Sym, TS, XBytes, XElem, show)

UNIWS = frozenset(c for c in map(chr, range(0x110000)) if c.isspace())
STR_METHODS = {n for n in dir(str) if not n.startswith('__')} | {
    '__len__', '__contains__', '__eq__', '__add__', '__getitem__', '__iter__', '__mod__', '__str__', '__format__',
    '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__mul__', '__hash__', '__repr__'}
BYTES_METHODS = {n for n in dir(bytes) if not n.startswith('__')} | {
    '__len__', '__contains__', '__eq__', '__add__', '__getitem__', '__iter__', '__hash__'}
BOOL_RESULT = {'isdigit', 'isspace', 'isalpha', 'isalnum', 'isnumeric', 'isdecimal', 'isupper', 'islower',
               'isidentifier', 'istitle', 'isprintable', 'isascii'}


def S(I):
    return TS([I.B['str']])


def BY(I):
    return TS([I.B['bytes']])


def nat(name, fn):
    return Native(name, lambda I, a, k: fn(*a, **k))


def find(I, o, name):
    if isinstance(o, bool):
        return const_method(I, o, name)
    if isinstance(o, (str, Cat)) and not (isinstance(o, Cat) and o.kind is bytes):
        return str_method(I, o, name)
    if isinstance(o, bytes) or (isinstance(o, Cat) and o.kind is bytes):
        return bytes_method(I, o, name)
    if isinstance(o, (int, float, decimal.Decimal)):
        return const_method(I, o, name)
    if isinstance(o, XBytes):
        return xbytes_method(I, o, name)
    if isinstance(o, AList):
        if isinstance(o, AView) and name not in ('__len__', '__iter__', '__contains__'):
            return None
        return list_method(I, o, name)
    if isinstance(o, tuple):
        return tuple_method(I, o, name)
    if isinstance(o, (ADict, AbsMap)):
        return dict_method(I, o, name)
    if isinstance(o, ASet):
        return set_method(I, o, name)
    if isinstance(o, MapKeys):
        return keys_method(I, o, name)
    if isinstance(o, AColl):
        return coll_method(I, o, name)
    if isinstance(o, XElem):
        from . import models
        return models.xml_attr(I, o, name)
    if isinstance(o, MatchObj):
        return match_method(I, o, name)
    if isinstance(o, Regex):
        return regex_method(I, o, name)
    if isinstance(o, Iter):
        return iter_method(I, o, name)
    if isinstance(o, Slice):
        return {'start': o.a, 'stop': o.b, 'step': o.c}.get(name)
    if isinstance(o, Sym):
        ts = I.types(o)
        if ts.inc is None or not ts.inc:
            return None
        c = sorted(ts.inc, key=lambda c: c.name)[0].name
        if c == 'str':
            return str_method(I, o, name)
        if c == 'bytes':
            return bytes_method(I, o, name)
        if c in ('int', 'bool', 'float', 'Decimal'):
            return num_method(I, o, name, c)
        if c in ('list', 'tuple'):
            return symlist_method(I, o, name)
        if c in ('dict', 'set', 'frozenset'):
            return symdict_method(I, o, name)
        if c in ('date', 'datetime', 'time', 'timedelta', 'timezone', 'tzinfo'):
            from . import models
            return models.dt_attr(I, o, name, c)
        if c == 'type':
            return None
        if c == 'Match':
            return None
    return None


HOST = {'str': str, 'bytes': bytes, 'int': int, 'bool': bool, 'float': float, 'list': list, 'tuple': tuple,
        'dict': dict, 'set': set, 'frozenset': frozenset, 'Decimal': decimal.Decimal, 'NoneType': type(None),
        'bytearray': bytearray, 'type': type}


def class_has(I, c, name):
    if name == '__class__':
        return True
    h = HOST.get(c.name) if c.builtin else None
    if h is not None:
        return hasattr(h, name)
    if c.builtin:
        import datetime
        t = getattr(datetime, c.name, None)
        if isinstance(t, type):
            return hasattr(t, name)
        if c.name in ('function', 'method'):
            return name in ('__name__', '__call__', '__doc__', '__qualname__', '__module__', '__self__', '__func__')
    return False


# ---------------------------------------------------------------------- constants
def const_method(I, o, name):
    if not hasattr(o, name):
        return None
    attr = getattr(o, name)
    if not callable(attr):
        return attr

    def f(I, a, k):
        a = [ops.resolve(I, ops.native_of(x)) for x in a]
        if all(isinstance(x, NATIVE) for x in a) and all(isinstance(x, NATIVE) for x in k.values()):
            try:
                r = attr(*a, **k)
            except (ValueError, TypeError, OverflowError, decimal.DecimalException) as e:
                I.raise_(type(e).__name__ if type(e).__name__ in I.B else 'ValueError', str(e))
            return wrap(I, r)
        I.unmodelled.append((f'{type(o).__name__}.{name}', I.where_repo()))
        return Sym(('m', name, ops.term(I, o)) + tuple(ops.term(I, x) for x in a))
    return Native(name, f)


def wrap(I, r):
    if isinstance(r, list):
        return I.new_list([wrap(I, x) for x in r])
    if isinstance(r, decimal.DecimalTuple):
        return Obj_tuple(I, r)
    if isinstance(r, tuple):
        return tuple(wrap(I, x) for x in r)
    if isinstance(r, NATIVE):
        return r
    raise Analysis(f'cannot represent {r!r}')


def Obj_tuple(I, r):
    o = Obj(I.B['tuple'], I.new_id())
    o.payload = tuple([r.sign, tuple(r.digits), r.exponent])
    o.attrs.update(sign=r.sign, digits=tuple(r.digits), exponent=r.exponent)
    return o


# ---------------------------------------------------------------------- strings
def str_method(I, o, name):
    if name not in STR_METHODS:
        return None

    def f(I, a, k):
        s = ops.resolve(I, o)
        a = [ops.resolve(I, ops.native_of(x)) for x in a]
        k = {n: ops.resolve(I, ops.native_of(v)) for n, v in k.items()}
        if isinstance(s, str) and all(isinstance(x, NATIVE) for x in a) and all(
                isinstance(v, NATIVE) for v in k.values()) and hasattr(str, name):
            try:
                r = getattr(s, name)(*a, **k)
            except (ValueError, TypeError, IndexError, KeyError, UnicodeError, LookupError) as e:
                I.raise_(type(e).__name__ if type(e).__name__ in I.B else 'ValueError', str(e))
            if r is NotImplemented:
                return r
            if name == '__iter__':
                return Iter(iter(s), I.new_id())
            return wrap(I, r)
        m = STR.get(name)
        if m is not None:
            return m(I, s, *a, **k)
        t = ops.term(I, s)
        args = tuple(ops.term(I, x) for x in a)
        if name in ('isdigit', 'isdecimal', 'isnumeric') and t[0] in ('digits', 'numdigits'):
            return True
        if name in BOOL_RESULT:
            return I.atom((name, t) + args)
        I.unmodelled.append((f'str.{name}', I.where_repo()))
        if name in ('find', 'rfind', 'index', 'rindex', 'count'):
            return Sym((name, t) + args, TS([I.B['int']]))
        return Sym(('str.' + name, t) + args, S(I))
    return Native(name, f)


def need_str(I, x, what):
    if x is None or isinstance(x, (int, float, bytes, decimal.Decimal)):
        I.raise_('TypeError', f'{what}: must be str')
    if isinstance(x, Sym):
        if not ops.isinstance_(I, x, I.B['str']):
            I.raise_('TypeError', f'{what}: must be str')


def s_startswith(I, s, p, *rest):
    if isinstance(p, tuple):
        return any(s_startswith(I, s, x) for x in p)
    need_str(I, p, 'startswith')
    if isinstance(s, Cat):
        first = s.parts[0]
        if isinstance(first, str) and isinstance(p, str):
            if len(p) <= len(first):
                return first.startswith(p)
            if not p.startswith(first):
                return False
        if first == p:
            return True
        if isinstance(p, Cat) and s.parts[:len(p.parts)] == p.parts:
            return True
    if isinstance(s, str) and isinstance(p, Cat) and isinstance(p.parts[0], str) and not s.startswith(p.parts[0]):
        return False
    if isinstance(p, Cat) and isinstance(s, Cat):
        tp, ts = ops.field_tokens(I, p), ops.field_tokens(I, s)
        if tp is not None and ts is not None and len(ts) >= len(tp) and (
                isinstance(tp[-1], str) or len(ts) == len(tp) or isinstance(ts[len(tp)], str)):
            return ops.eq_tokens(I, tp, ts[:len(tp)])
    if p == '':
        return True
    if isinstance(s, Sym) and isinstance(p, str):
        f = I.facts
        if s.term in f.const and isinstance(f.const[s.term], str):
            return f.const[s.term].startswith(p)
    return I.atom(('startswith', ops.term(I, s), ops.term(I, p)))


def s_endswith(I, s, p, *rest):
    if isinstance(p, tuple):
        return any(s_endswith(I, s, x) for x in p)
    need_str(I, p, 'endswith')
    if isinstance(s, Cat):
        last = s.parts[-1]
        if isinstance(last, str) and isinstance(p, str):
            if len(p) <= len(last):
                return last.endswith(p)
            if not p.endswith(last):
                return False
        if last == p:
            return True
    if p == '':
        return True
    return I.atom(('endswith', ops.term(I, s), ops.term(I, p)))


def pieces(I, s):
    return list(s.parts) if isinstance(s, Cat) else [s]


def split_points(I, s, sep):
    """Parts of s between occurrences of the constant separator (symbols are decided by atoms)."""
    out = [[]]
    for p in pieces(I, s):
        if isinstance(p, str):
            bits = p.split(sep)
            out[-1].append(bits[0])
            for b in bits[1:]:
                out.append([b])
            continue
        if ops.str_contains(I, p, sep):
            out[-1].append(Sym(('before', p.term, sep), S(I)))
            I.facts.truth[('contains', ('before', p.term, sep), ('c', sep))] = False
            if I.atom(('once', p.term, sep), f'{show(p.term)} contains {sep!r} exactly once'):
                out.append([Sym(('after', p.term, sep), S(I))])
            else:
                out.append([Sym(('middle', p.term, sep), S(I))])
                I.data['klimited'] = True
                out.append([Sym(('afterlast', p.term, sep), S(I))])
            I.facts.truth[('contains', out[-1][0].term, ('c', sep))] = False
        else:
            out[-1].append(p)
    return [ops.norm_cat(I, x) for x in out]


def s_split(I, s, sep=None, maxsplit=-1):
    if sep is None:
        return I.new_list([Sym(('words', ops.term(I, s)), S(I))]) if False else words(I, s)
    if not isinstance(sep, str):
        I.unmodelled.append(('split with unknown separator', I.where_repo()))
        return I.new_list([Sym(('split', ops.term(I, s), ops.term(I, sep), 0), S(I))])
    ps = split_points(I, s, sep)
    if isinstance(maxsplit, int) and maxsplit >= 0 and len(ps) > maxsplit + 1:
        tail = []
        if middle_of(ps[maxsplit]):
            pass
        for i, x in enumerate(ps[maxsplit:]):
            if i:
                tail.append(sep)
            tail.append(x)
        ps = ps[:maxsplit] + [ops.norm_cat(I, tail)]
    return I.new_list(ps)


def middle_of(x):
    return isinstance(x, Sym) and x.term[0] == 'middle'


def s_rsplit(I, s, sep=None, maxsplit=-1):
    if not isinstance(sep, str):
        return s_split(I, s, sep)
    ps = split_points(I, s, sep)
    if isinstance(maxsplit, int) and maxsplit >= 0 and len(ps) > maxsplit + 1:
        cut = len(ps) - maxsplit
        head = []
        for i, x in enumerate(ps[:cut]):
            if i:
                head.append(sep)
            head.append(x)
        ps = [ops.norm_cat(I, head)] + ps[cut:]
    return I.new_list(ps)


def s_partition(I, s, sep):
    r = s_split(I, s, sep, 1).items
    if len(r) == 1:
        return (s, '', '')
    return (r[0], sep, r[1])


def s_rpartition(I, s, sep):
    r = s_rsplit(I, s, sep, 1).items
    if len(r) == 1:
        return ('', '', s)
    return (r[0], sep, r[1])


def words(I, s):
    return AColl(('words', ops.term(I, s)), I.new_id(),
                 lambda I, i: Sym(('word', ops.term(I, s), i), S(I)))


def s_join(I, s, it):
    it = ops.resolve(I, it)
    if isinstance(it, AColl) and it.term[0] == 'words' and s == ' ':
        return ws_apply(I, Sym(it.term[1], S(I)), 'words', UNIWS)
    parts = []
    for i, x in enumerate(I.iterate(it)):
        x = ops.resolve(I, ops.native_of(x))
        if not isinstance(x, (str, Cat, XBytes)):
            if isinstance(x, Sym):
                if not ops.isinstance_(I, x, I.B['str']):
                    I.raise_('TypeError', 'sequence item: expected str instance')
            else:
                I.raise_('TypeError', 'sequence item: expected str instance')
        if i:
            parts.append(s)
        parts.append(x)
    return ops.norm_cat(I, parts)


def s_replace(I, s, a, b, count=-1):
    count = ops.resolve(I, count)
    if isinstance(a, str) and isinstance(b, str) and len(a) == 1 and isinstance(count, int) and (count == -1 or all(
            isinstance(p, str) or ops.string_property(I, p.term, a) is False for p in pieces(I, s))):
        if b == ' ' and a.isspace() and count == -1:
            return ws_apply(I, s, 'map', frozenset(a))
        out = []
        for p in pieces(I, s):
            if isinstance(p, str):
                out.append(p.replace(a, b, count))
                if count > 0:
                    count -= min(count, p.count(a))
            elif I.facts.truth.get(('contains', p.term, ('c', a))) is False or ops.string_property(I, p.term, a) is False:
                out.append(p)
            else:
                out.append(Sym(('replace', p.term, a, b), S(I)))
        return ops.norm_cat(I, out)
    return Sym(('replace', ops.term(I, s), ops.term(I, a), ops.term(I, b)), S(I))


def s_case(kind):
    def f(I, s):
        out = []
        for p in pieces(I, s):
            if isinstance(p, str):
                out.append(getattr(p, kind)())
            elif p.term[0] == kind:
                out.append(p)
            elif p.term[0] in ('str', 'pad') :
                out.append(p) if is_number_text(I, p.term) else out.append(Sym((kind, p.term), S(I)))
            else:
                out.append(Sym((kind, p.term), S(I)))
        return ops.norm_cat(I, out)
    return f


def is_number_text(I, t):
    inner = t[-1]
    ts = I.facts.types.get(inner)
    return t[0] == 'pad' or (ts is not None and ops.all_in(ts, ('int',)))


def s_encode(I, s, encoding='utf-8', errors='strict'):
    enc = str(encoding).lower().replace('_', '-').replace('utf8', 'utf-8')
    out = []
    for p in pieces(I, s):
        if isinstance(p, str):
            out.append(p.encode('utf-8' if enc == 'utf-8' else encoding))
        elif p.term[0] == 'decode' and p.term[2] == enc:
            out.append(Sym(p.term[1], BY(I)))
        elif p.term[0] == 'xml' and p.term[2] == 'str':
            out.append(Sym(('xml', p.term[1], 'bytes'), BY(I)))
        else:
            out.append(Sym(('encode', p.term, enc), BY(I)))
    return ops.norm_cat(I, out, bytes)


def s_strip(which):
    def f(I, s, chars=None):
        if chars is None:
            cs = UNIWS
        elif isinstance(chars, str):
            cs = frozenset(chars)
        else:
            return Sym((which, ops.term(I, s), ops.term(I, chars)), S(I))
        if isinstance(s, Cat):
            parts = list(s.parts)
            done = True
            for end in ([0] if which == 'lstrip' else [-1] if which == 'rstrip' else [0, -1]):
                while parts:
                    p = parts[end]
                    if isinstance(p, str):
                        q = p.lstrip(''.join(cs)) if end == 0 else p.rstrip(''.join(cs))
                        if q:
                            parts[end] = q
                            break
                        del parts[end]
                        continue
                    if not all(ops.string_property(I, p.term, c) is False for c in cs):
                        done = False
                    break
            if done:
                return ops.norm_cat(I, parts)
        if isinstance(s, Sym) and all(ops.string_property(I, s.term, c) is False for c in cs):
            return s
        if cs <= UNIWS:
            return ws_apply(I, s, which, cs)
        return Sym((which, ops.term(I, s), ('c', ''.join(sorted(cs)))), S(I))
    return f


def s_format(I, s, *a, **k):
    if not isinstance(s, str):
        I.unmodelled.append(('format with unknown template', I.where_repo()))
        return Sym(('format', ops.term(I, s)) + tuple(ops.term(I, x) for x in a), S(I))
    parts = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(s):
        parts.append(lit)
        if field is None:
            continue
        first, rest = field, ''
        for i, ch in enumerate(field):
            if ch in '.[':
                first, rest = field[:i], field[i:]
                break
        if first == '':
            v = a[auto]
            auto += 1
        elif first.isdigit():
            v = a[int(first)]
        else:
            if first not in k:
                I.raise_('KeyError', first)
            v = k[first]
        while rest:
            if rest[0] == '.':
                n = 1
                while n < len(rest) and rest[n] not in '.[':
                    n += 1
                v = I.getattr(v, rest[1:n])
                rest = rest[n:]
            else:
                n = rest.index(']')
                key = rest[1:n]
                v = ops.getitem(I, v, int(key) if key.isdigit() else key)
                rest = rest[n + 1:]
        if conv == 'r':
            v = ops.repr_(I, v)
        elif conv == 's':
            v = ops.str_(I, v)
        if spec and '{' in spec:
            spec = s_format(I, spec, *a, **k)
        parts.append(ops.format_(I, v, spec or ''))
    return ops.norm_cat(I, parts)


def s_removeprefix(I, s, p):
    if s_startswith(I, s, p):
        if isinstance(s, Cat) and isinstance(p, str) and isinstance(s.parts[0], str) and s.parts[0].startswith(p):
            return ops.norm_cat(I, (s.parts[0][len(p):],) + s.parts[1:])
        return Sym(('removeprefix', ops.term(I, s), ops.term(I, p)), S(I))
    return s


def s_removesuffix(I, s, p):
    if s_endswith(I, s, p):
        if isinstance(s, Cat) and isinstance(p, str) and isinstance(s.parts[-1], str) and s.parts[-1].endswith(p):
            return ops.norm_cat(I, s.parts[:-1] + (s.parts[-1][:len(s.parts[-1]) - len(p)],))
        return Sym(('removesuffix', ops.term(I, s), ops.term(I, p)), S(I))
    return s


def s_zfill(I, s, n):
    if isinstance(s, Sym) and s.term[0] == 'str' and isinstance(n, int):
        return Sym(('pad', n, s.term[1]), S(I))
    if isinstance(s, Cat):
        return Sym(('zfill', s.term, ops.term(I, n)), S(I))
    return Sym(('zfill', ops.term(I, s), ops.term(I, n)), S(I))


def s_rjust(I, s, n, c=' '):
    if c == '0':
        return s_zfill(I, s, n)
    return Sym(('rjust', ops.term(I, s), ops.term(I, n), ops.term(I, c)), S(I))


def s_translate(I, s, table):
    if isinstance(table, ADict):
        m = {}
        for kk, v in table.d.values():
            if isinstance(kk, int):
                kk = chr(kk)
            if not isinstance(kk, str):
                break
            m[kk] = chr(v) if isinstance(v, int) else v
        else:
            if m and all(v == ' ' and kk.isspace() for kk, v in m.items()):
                return ws_apply(I, s, 'map', frozenset(m))
            if isinstance(s, str):
                return s.translate({ord(kk): v for kk, v in m.items()})
            return Sym(('translate', ops.term(I, s)) + tuple(sorted((kk, repr(v)) for kk, v in m.items())), S(I))
    I.unmodelled.append(('str.translate', I.where_repo()))
    return Sym(('translate', ops.term(I, s), ops.term(I, table)), S(I))


def s_capitalize(I, s):
    return Sym(('capitalize', ops.term(I, s)), S(I))


def s_count(I, s, x):
    if isinstance(x, str) and len(x) == 1:
        known, unknown = 0, []
        for p in pieces(I, s):
            if isinstance(p, str):
                known += p.count(x)
            elif ops.string_property(I, p.term, x) is not False:
                unknown.append(p)
        if not unknown:
            return known
        if len(unknown) == 1:
            n = Sym(('count', unknown[0].term, ops.term(I, x)), TS([I.B['int']]))
            return ops.binop(I, 'Add', n, known) if known else n
    return Sym(('count', ops.term(I, s), ops.term(I, x)), TS([I.B['int']]))


def s_eq(I, s, o):
    return ops.eq(I, s, o)


STR = {
    'startswith': s_startswith, 'endswith': s_endswith, 'split': s_split, 'rsplit': s_rsplit,
    'partition': s_partition, 'rpartition': s_rpartition, 'join': s_join, 'replace': s_replace,
    'lower': s_case('lower'), 'upper': s_case('upper'), 'casefold': s_case('casefold'), 'title': s_case('title'),
    'swapcase': s_case('swapcase'), 'encode': s_encode, 'strip': s_strip('strip'), 'lstrip': s_strip('lstrip'),
    'rstrip': s_strip('rstrip'), 'format': s_format, 'removeprefix': s_removeprefix,
    'removesuffix': s_removesuffix, 'zfill': s_zfill, 'rjust': s_rjust, 'translate': s_translate,
    'capitalize': s_capitalize, 'count': s_count, '__eq__': s_eq,
    '__ne__': lambda I, s, o: not ops.truth(I, ops.eq(I, s, o)),
    '__len__': lambda I, s: ops.length(I, s), '__contains__': lambda I, s, x: ops.contains(I, s, x),
    '__add__': lambda I, s, o: ops.binop(I, 'Add', s, o), '__mod__': lambda I, s, o: ops.percent(I, s, o),
    '__getitem__': lambda I, s, i: ops.getitem(I, s, i), '__str__': lambda I, s: s,
    '__format__': lambda I, s, f: ops.format_(I, s, f),
    '__hash__': lambda I, s: Sym(('hash', ops.term(I, s)), TS([I.B['int']])),
    '__repr__': lambda I, s: ops.repr_(I, s),
    '__lt__': lambda I, s, o: ops.order(I, '<', s, o), '__gt__': lambda I, s, o: ops.order(I, '>', s, o),
    '__le__': lambda I, s, o: ops.order(I, '<=', s, o), '__ge__': lambda I, s, o: ops.order(I, '>=', s, o),
}


# ---------------------------------------------------------------------- whitespace normal form
# ('ws', base, R, Q, L): characters R are mapped to a space, Q: runs of spaces squeezed, L: stripped sides
def ws_form(I, s):
    s = ops.resolve(I, s)
    t = ops.term(I, s)
    if t[0] == 'ws':
        return t
    return ('ws', t, (), False, '')


def ws_make(I, base, R, Q, L):
    R = tuple(sorted(set(R)))
    if not R and not Q and not L:
        return Sym(base, S(I))
    s = Sym(('ws', base, R, Q, L), S(I))
    # the result is never longer than the base
    z = I.facts.zone
    for x in (('len', s.term), ('len', base)):
        ops.rel_possible(I, x, ZERO, 0, ints=True)
    if Q or L:
        z.assume(('len', s.term), ('len', base), 0, {'<', '='})
    else:
        z.assume(('len', s.term), ('len', base), 0, {'='})
    return s


def ws_apply(I, s, op, chars):
    s = ops.resolve(I, s)
    if isinstance(s, str):
        return ws_host(s, op, chars)
    w = ws_form(I, s)
    _, base, R, Q, L = w
    R = frozenset(R)
    t = ops.term(I, s)
    opaque = Sym(('wsop', t, op, ''.join(sorted(chars)) if len(chars) < 20 else 'unicode'), S(I))
    if op == 'map':            # each of chars -> ' '
        new = chars - {' '}
        if new <= R:
            return s
        if base[0] == 'stripped' and not R and not Q and not L:
            _, b2, side, cs = base
            if frozenset(cs) == new | {' '}:
                return ws_make(I, b2, new, False, side)
        if Q or L:
            return opaque
        return ws_make(I, base, R | new, Q, L)
    if op == 'mapruns':        # each run of chars -> one ' '
        new = chars - {' '}
        if ' ' not in chars:
            if new <= R:
                return s
            return opaque
        if base[0] == 'stripped' and not R and not Q and not L:
            _, b2, side, cs = base
            if frozenset(cs) == new | {' '}:
                return ws_make(I, b2, new, True, side)
        if (Q or L) and not new <= R:
            return opaque
        return ws_make(I, base, R | new, True, L)
    if op == 'words':
        if (Q or L) and not (chars - {' '}) <= R:
            return opaque
        return ws_make(I, base, R | (chars - {' '}), True, 'LR')
    if op in ('strip', 'lstrip', 'rstrip'):
        side = {'strip': 'LR', 'lstrip': 'L', 'rstrip': 'R'}[op]
        if not R and not Q and not L:
            if base[0] == 'stripped' and frozenset(base[3]) == chars:
                side = ''.join(sorted(set(side) | set(base[2])))
                base = base[1]
            if chars == {' '}:
                return ws_make(I, base, R, Q, side)
            r = Sym(('stripped', base, side, ''.join(sorted(chars))), S(I))
            z = I.facts.zone
            for x in (('len', r.term), ('len', base)):
                ops.rel_possible(I, x, ZERO, 0, ints=True)
            z.assume(('len', r.term), ('len', base), 0, {'<', '='})
            return r
        if ' ' in chars and (chars - {' '}) <= R:
            return ws_make(I, base, R, Q, ''.join(sorted(set(L) | set(side))))
        # other characters may survive at the ends
        return opaque
    return opaque


def ws_host(s, op, chars):
    if op == 'map':
        return ''.join(' ' if c in chars else c for c in s)
    if op == 'mapruns':
        out = []
        run = False
        for c in s:
            if c in chars:
                if not run:
                    out.append(' ')
                run = True
            else:
                out.append(c)
                run = False
        return ''.join(out)
    if op == 'words':
        return ' '.join(s.split())
    return getattr(s, op)(''.join(chars))


# ---------------------------------------------------------------------- bytes
def bytes_method(I, o, name):
    if name not in BYTES_METHODS:
        return None

    def f(I, a, k):
        s = ops.resolve(I, o)
        a = [ops.resolve(I, x) for x in a]
        if isinstance(s, bytes) and all(isinstance(x, NATIVE) for x in a) and all(
                isinstance(v, NATIVE) for v in k.values()):
            try:
                r = getattr(s, name)(*a, **k)
            except (ValueError, TypeError, IndexError, LookupError) as e:
                I.raise_(type(e).__name__ if type(e).__name__ in I.B else 'ValueError', str(e))
            return wrap(I, r)
        if name == 'decode':
            enc = a[0] if a else k.get('encoding', 'utf-8')
            err = a[1] if len(a) > 1 else k.get('errors', 'strict')
            return b_decode(I, s, enc, err)
        if name == 'join':
            parts = []
            for i, x in enumerate(I.iterate(a[0])):
                x = ops.resolve(I, x)
                if i:
                    parts.append(s)
                parts.append(Sym(x.term, BY(I)) if isinstance(x, XBytes) else x)
            r = ops.norm_cat(I, parts, bytes)
            if isinstance(r, Sym) and r.term[0] == 'xml':
                return XBytes(r.term[1], bytes)
            return r
        if name == '__len__':
            return ops.length(I, s)
        if name in ('startswith', 'endswith'):
            return I.atom((name, ops.term(I, s), ops.term(I, a[0])))
        if name == '__eq__':
            return ops.eq(I, s, a[0])
        if name == '__add__':
            return ops.binop(I, 'Add', s, a[0])
        if name in ('strip', 'lstrip', 'rstrip'):
            if isinstance(s, Cat) and (not a or isinstance(a[0], bytes) or a[0] is None):
                parts, sides = list(s.parts), {'strip': (0, -1), 'lstrip': (0,), 'rstrip': (-1,)}[name]
                ends = [getattr(parts[e], 'lstrip' if e == 0 else 'rstrip')(*a) if isinstance(parts[e], bytes) else b'' for e in sides]
                if all(ends):
                    for e, q in zip(sides, ends):
                        parts[e] = q
                    return ops.norm_cat(I, parts, bytes)
            return Sym((name, ops.term(I, s)) + tuple(ops.term(I, x) for x in a), BY(I))
        I.unmodelled.append((f'bytes.{name}', I.where_repo()))
        return Sym(('bytes.' + name, ops.term(I, s)) + tuple(ops.term(I, x) for x in a), BY(I))
    return Native(name, f)


def b_decode(I, s, encoding='utf-8', errors='strict'):
    enc = str(encoding).lower().replace('_', '-').replace('utf8', 'utf-8')
    out = []
    for p in pieces(I, s):
        if isinstance(p, bytes):
            try:
                out.append(p.decode(enc))
            except UnicodeDecodeError:
                I.raise_('UnicodeDecodeError')
        elif p.term[0] == 'encode' and p.term[2] == enc:
            out.append(Sym(p.term[1], S(I)))
        elif p.term[0] == 'xml' and p.term[2] == 'bytes':
            out.append(Sym(('xml', p.term[1], 'str'), S(I)))
        else:
            if errors == 'strict' and not I.atom(('decodable', p.term, enc)):
                I.raise_('UnicodeDecodeError')
            out.append(Sym(('decode', p.term, enc), S(I)))
    return ops.norm_cat(I, out)


def xbytes_method(I, o, name):
    if name == 'decode' and o.kind is bytes:
        return Native(name, lambda I, a, k: XBytes(o.tree, str, o.opts))
    if name == 'encode' and o.kind is str:
        return Native(name, lambda I, a, k: XBytes(o.tree, bytes, o.opts))
    if name in ('strip', 'lstrip', 'rstrip'):
        return Native(name, lambda I, a, k: o)
    if name in (STR_METHODS if o.kind is str else BYTES_METHODS):
        return find(I, Sym(o.term, S(I) if o.kind is str else BY(I)), name)
    return None


# ---------------------------------------------------------------------- lists and tuples
def list_method(I, o, name):
    items = o.items

    def touch():
        I.touch_list(items)

    def append(x):
        touch()
        items.append(x)

    def extend(x):
        new = list(I.iterate(x))
        touch()
        items.extend(new)

    def insert(i, x):
        i = ops.resolve(I, i)
        touch()
        if not isinstance(i, int):
            raise Cut('symbolic index')
        items.insert(i, x)

    def pop(i=-1):
        i = ops.resolve(I, i)
        if not items or not isinstance(i, int) or not -len(items) <= i < len(items):
            I.raise_('IndexError', 'pop from empty list / index out of range')
        touch()
        return items.pop(i)

    def remove(x):
        for i, y in enumerate(items):
            if y is x or ops.truth(I, ops.eq(I, y, x)):
                touch()
                del items[i]
                return
        I.raise_('ValueError', 'list.remove(x): x not in list')

    def clear():
        touch()
        items.clear()

    def sort(key=None, reverse=False):
        from .builtins_ import sort_items
        new = sort_items(I, list(items), key, reverse)
        touch()
        items[:] = new

    def reverse():
        touch()
        items.reverse()

    def index(x, *r):
        for i, y in enumerate(items):
            if y is x or ops.truth(I, ops.eq(I, y, x)):
                return i
        I.raise_('ValueError', 'not in list')

    def count(x):
        return sum(1 for y in items if y is x or ops.truth(I, ops.eq(I, y, x)))

    def iadd(x):
        extend(x)
        return o

    table = dict(append=append, extend=extend, insert=insert, pop=pop, remove=remove, clear=clear, sort=sort,
                 reverse=reverse, index=index, count=count, copy=lambda: I.new_list(items),
                 __len__=lambda: len(items), __iter__=lambda: Iter(iter(I.iterate(o)), I.new_id()),
                 __contains__=lambda x: ops.contains(I, o, x), __getitem__=lambda i: ops.getitem(I, o, i),
                 __setitem__=lambda i, v: ops.setitem(I, o, i, v), __delitem__=lambda i: ops.delitem(I, o, i),
                 __iadd__=iadd, __add__=lambda x: ops.binop(I, 'Add', o, x),
                 __eq__=lambda x: ops.eq(I, o, x), __ne__=lambda x: not ops.truth(I, ops.eq(I, o, x)),
                 __imul__=lambda n: ops.inplace(I, 'Mult', o, n),
                 __reversed__=lambda: Iter(iter(list(reversed(items))), I.new_id()))
    f = table.get(name)
    return nat(name, f) if f else None


def tuple_method(I, o, name):
    def index(x):
        for i, y in enumerate(o):
            if y is x or ops.truth(I, ops.eq(I, y, x)):
                return i
        I.raise_('ValueError', 'not in tuple')
    table = dict(index=index, count=lambda x: sum(1 for y in o if ops.truth(I, ops.eq(I, y, x))),
                 __len__=lambda: len(o), __iter__=lambda: Iter(iter(o), I.new_id()),
                 __contains__=lambda x: ops.contains(I, o, x), __getitem__=lambda i: ops.getitem(I, o, i),
                 __eq__=lambda x: ops.eq(I, o, x), __add__=lambda x: ops.binop(I, 'Add', o, x))
    f = table.get(name)
    return nat(name, f) if f else None


def coll_method(I, o, name):
    table = dict(__len__=lambda: ops.length(I, o), __iter__=lambda: Iter(iter(I.iterate(o)), I.new_id()),
                 copy=lambda: I.new_list(I.to_list(o)), __contains__=lambda x: ops.contains(I, o, x),
                 __getitem__=lambda i: ops.getitem(I, o, i),
                 index=lambda x: tuple_method(I, tuple(I.to_list(o)), 'index').fn(I, [x], {}),
                 count=lambda x: sum(1 for y in I.iterate(o) if ops.truth(I, ops.eq(I, y, x))))
    f = table.get(name)
    if f:
        return nat(name, f)
    if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
        def mut(*a, **k):
            I.event('mutate', name, [o] + list(a))
            return None
        return nat(name, mut)
    return None


def symlist_method(I, o, name):
    if not hasattr(list, name):
        return None

    def f(I, a, k):
        if name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', '__setitem__'):
            I.event('mutate', name, [o] + list(a))
            return Sym(('popped', o.term, len(I.events))) if name == 'pop' else None
        if name == '__len__':
            return ops.length(I, o)
        if name == '__iter__':
            return Iter(iter(I.iterate(o)), I.new_id())
        if name == 'copy':
            return o
        I.unmodelled.append(('list.' + name, I.where_repo()))
        return Sym(('m', name, o.term) + tuple(ops.term(I, x) for x in a))
    return Native(name, f)


def symdict_method(I, o, name):
    def f(I, a, k):
        if name in ('get', '__getitem__'):
            return Sym(('key', o.term, ops.term(I, a[0])))
        if name in ('items', 'keys', 'values'):
            return Sym((name, o.term), TS([I.B['list']]))
        if name == 'copy':
            return o
        I.event('mutate', name, [o] + list(a))
        return Sym(('m', name, o.term) + tuple(ops.term(I, x) for x in a))
    return Native(name, f)


# ---------------------------------------------------------------------- dicts and sets
def dict_method(I, o, name):
    def view(kind, items):
        v = AView(items, I.new_id())
        v.kind = kind
        return v

    def get(key, default=None):
        if isinstance(o, AbsMap):
            return ops.map_value(I, o, key) if ops.has_key(I, o, key) else default
        kt = ops.dict_find(I, o, key)
        return default if kt is None else o.d[kt][1]

    def items():
        return view('dict_items', ops.dict_items(I, o) if isinstance(o, AbsMap) else [(k, v) for k, v in o.d.values()])

    def keys():
        if isinstance(o, AbsMap):
            return MapKeys(o)
        s = I.new_set([])
        for kt, (k, v) in o.d.items():
            s.d[kt] = k
        return s

    def values():
        return view('dict_values', [v for _, v in ops.dict_items(I, o)])

    nodef = object()

    def pop(key, default=nodef):
        if isinstance(o, AbsMap):
            if ops.has_key(I, o, key):
                v = ops.map_value(I, o, key)
                ops.delitem(I, o, key)
                return v
        else:
            kt = ops.dict_find(I, o, key)
            if kt is not None:
                v = o.d[kt][1]
                I.deld(o.d, kt)
                return v
        if default is nodef:
            I.raise_('KeyError', key)
        return default

    def popitem():
        if not o.d:
            I.raise_('KeyError', 'dictionary is empty')
        kt = list(o.d)[-1]
        k, v = o.d[kt]
        I.deld(o.d, kt)
        return (k, v)

    def setdefault(key, default=None):
        if ops.contains(I, o, key):
            return ops.getitem(I, o, key)
        ops.setitem(I, o, key, default)
        return default

    def update(*a, **k):
        for x in a:
            for kk, v in ops.dict_items(I, x):
                ops.setitem(I, o, kk, v)
        for kk, v in k.items():
            ops.setitem(I, o, kk, v)

    def copy():
        if isinstance(o, AbsMap):
            m = AbsMap(o.term, I.new_id(), o.valfn)
            m.known = dict(o.known)
            return m
        d = I.new_dict([])
        d.d = dict(o.d)
        return d

    def clear():
        I.touch_dict(o.d)
        o.d.clear()

    table = dict(get=get, items=items, keys=keys, values=values, pop=pop, popitem=popitem, setdefault=setdefault,
                 update=update, copy=copy, clear=clear, __len__=lambda: ops.length(I, o),
                 __iter__=lambda: Iter(iter(I.iterate(o)), I.new_id()), __contains__=lambda x: ops.contains(I, o, x),
                 __getitem__=lambda i: ops.getitem(I, o, i), __setitem__=lambda i, v: ops.setitem(I, o, i, v),
                 __delitem__=lambda i: ops.delitem(I, o, i), __eq__=lambda x: ops.eq(I, o, x),
                 has_key=None, __ne__=lambda x: not ops.truth(I, ops.eq(I, o, x)))
    f = table.get(name)
    return nat(name, f) if f else None


def set_method(I, o, name):
    def add(x):
        ops.set_add(I, o, x)

    def discard(x):
        kt = ops.find_key_set(I, o, x)
        if kt is not None:
            I.deld(o.d, kt)

    def remove(x):
        kt = ops.find_key_set(I, o, x)
        if kt is None:
            I.raise_('KeyError', x)
        I.deld(o.d, kt)

    def update(*its):
        for it in its:
            for x in I.iterate(it):
                ops.set_add(I, o, x)

    def union(*its):
        s = I.new_set(list(o.d.values()), o.frozen)
        for it in its:
            for x in I.iterate(it):
                ops.set_add(I, s, x)
        return s

    def fold(op):
        def f(*its):
            r = o
            for it in its:
                r = ops.set_op(I, op, r, it if isinstance(it, (ASet, MapKeys)) else I.new_set(I.to_list(it)))
            return r
        return f

    def issubset(x):
        return all(ops.contains(I, x, y) for y in o.d.values())

    def issuperset(x):
        return all(ops.find_key_set(I, o, y) is not None for y in I.iterate(x))

    def pop():
        if not o.d:
            I.raise_('KeyError', 'pop from an empty set')
        kt = next(iter(o.d))
        v = o.d[kt]
        I.deld(o.d, kt)
        return v

    def clear():
        I.touch_dict(o.d)
        o.d.clear()

    def inplace(op):
        def f(it):
            r = ops.set_op(I, op, o, it)
            I.touch_dict(o.d)
            o.d.clear()
            o.d.update(r.d)
        return f

    table = dict(add=add, discard=discard, remove=remove, update=update, union=union, intersection=fold('BitAnd'),
                 difference=fold('Sub'), symmetric_difference=fold('BitXor'), issubset=issubset,
                 issuperset=issuperset, isdisjoint=lambda x: not any(ops.contains(I, x, y) for y in o.d.values()),
                 copy=lambda: I.new_set(list(o.d.values()), o.frozen), pop=pop, clear=clear,
                 difference_update=inplace('Sub'), intersection_update=inplace('BitAnd'),
                 __len__=lambda: len(o.d), __contains__=lambda x: ops.contains(I, o, x),
                 __iter__=lambda: Iter(iter(list(o.d.values())), I.new_id()))
    f = table.get(name)
    return nat(name, f) if f else None


def keys_method(I, o, name):
    table = dict(isdisjoint=lambda x: not any(ops.has_key(I, o.map, y) for y in I.iterate(x)),
                 __contains__=lambda x: ops.has_key(I, o.map, x),
                 __iter__=lambda: Iter(iter(I.iterate(o)), I.new_id()),
                 intersection=lambda x: ops.set_op(I, 'BitAnd', o, x),
                 __and__=lambda x: ops.set_op(I, 'BitAnd', o, x))
    f = table.get(name)
    return nat(name, f) if f else None


def iter_method(I, o, name):
    if name == '__next__':
        return Native(name, lambda I, a, k: I.call(I.B['next'], [o], {}))
    if name == '__iter__':
        return Native(name, lambda I, a, k: o)
    if name == 'close':
        def close(I, a, k):
            if o.body is not None:
                o.body.resume('close')
            o.gen = iter(())
        return Native(name, close)
    if name in ('send', 'throw') and o.body is not None:
        def resume(I, a, k):
            v = a[-1] if name == 'throw' and len(a) == 3 and a[1] is not None else a[0]
            if name == 'throw' and isinstance(v, Cls):
                v = I.call(v, [], {})
            kind, r = o.body.resume(name, v)
            if kind == 'end':
                I.raise_('StopIteration')
            return r
        return Native(name, resume)
    return None


# ---------------------------------------------------------------------- numbers
def num_method(I, o, name, c):
    host = HOST[c]
    if not hasattr(host, name):
        return None

    def f(I, a, k):
        if name in ('is_finite',):
            return not I.atom(('isinf', o.term)) and not I.atom(('isnan', o.term))
        if name in ('is_nan',):
            return I.atom(('isnan', o.term))
        if name == 'is_infinite':
            return I.atom(('isinf', o.term))
        if name == 'is_integer':
            return I.atom(('isintegral', o.term))
        if name in ('__eq__',):
            return ops.eq(I, o, a[0])
        if name == '__str__':
            return ops.str_(I, o)
        if name == '__format__':
            return ops.format_(I, o, a[0])
        if name in ('__int__', '__index__'):
            return ops.to_int(I, o)
        if name == '__float__':
            return ops.to_float(I, o)
        if name in ('normalize', 'copy_abs', 'quantize', 'to_integral_value'):
            return Sym((name, o.term) + tuple(ops.term(I, x) for x in a), TS([I.B['Decimal']]))
        if name == 'as_tuple':
            return Sym(('as_tuple', o.term), TS([I.B['tuple']]))
        if name == 'adjusted':
            return Sym(('adjusted', o.term), TS([I.B['int']]))
        I.unmodelled.append((f'{c}.{name}', I.where_repo()))
        return Sym(('m', name, o.term) + tuple(ops.term(I, x) for x in a))
    if name in ('real', 'numerator'):
        return o
    if name in ('imag',):
        return 0
    if name == 'denominator':
        return 1
    return Native(name, f)


# ---------------------------------------------------------------------- regular expressions
def match_method(I, o, name):
    from . import models
    return models.match_attr(I, o, name)


def regex_method(I, o, name):
    from . import models
    return models.regex_attr(I, o, name)
