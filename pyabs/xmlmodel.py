"""Abstract model of lxml.etree: trees with symbolic tags, texts and attributes."""
import re

from . import ops
from .facts import ZERO
from .values import (AbsMap, ADict, AList, Bound, Cat, Cls, Extern, Iter, NATIVE, Native, Obj, Sym, TS, XBytes, XElem,
                     show)

P = 'lxml.etree.'


def S(I):
    return TS([I.B['str']])


def nat(name, fn):
    return Native(name, lambda I, a, k: fn(*a, **k))


# the characters no XML document may contain (surrogates stand for themselves)
FORBIDDEN = [chr(c) for c in list(range(0, 9)) + [11, 12] + list(range(14, 32)) + list(range(0xD800, 0xE000)) + [0xFFFE, 0xFFFF]]


def may_be_forbidden(t, wild):
    """Whether a text term can hold characters that XML forbids: it is built from such a text without removing them."""
    if t in wild:
        return True
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'repr':
        return False
    if t[0] == 'resub' and isinstance(t[1], str) and isinstance(t[2], str):
        try:
            r = re.compile(t[1])
        except re.error:
            r = None
        if r is not None and all(r.search(c) for c in FORBIDDEN) and not any(c in FORBIDDEN for c in t[2]):
            return False
    if t[0] in ('atom', 'c'):
        return False
    return any(may_be_forbidden(x, wild) for x in t if isinstance(x, tuple))


def need_text(I, v, what, allow_none=True):
    r = need_text_(I, v, what, allow_none)
    wild = I.data.get('wild')
    if wild and isinstance(r, (Sym, Cat)) and may_be_forbidden(ops.term(I, r), wild):
        if I.atom(('forbidden', ops.term(I, r)), f'{show(ops.term(I, r))[:80]} has characters XML can not hold'):
            I.raise_('ValueError', 'All strings must be XML compatible: Unicode or ASCII, no NULL bytes or control characters')
    return r


def need_text_(I, v, what, allow_none=True):
    v = ops.resolve(I, ops.native_of(v))
    if v is None:
        if allow_none:
            return None
        I.raise_('TypeError', f'{what} must be str, not None')
    if isinstance(v, (str, Cat)):
        if isinstance(v, Cat) and v.kind is bytes:
            return Sym(('decoded', v.term), S(I))
        return v
    if isinstance(v, bytes):
        return v.decode('latin-1')
    if isinstance(v, XBytes):
        return Sym(v.term, S(I))
    if isinstance(v, Obj) and v.cls.name == P + 'QName':
        return v.attrs['text']
    if isinstance(v, Sym):
        ts = I.types(v)
        if ts.inc is not None and all(c.builtin for c in ts.inc):
            groups = [[I.B['NoneType']], [I.B['str']], [I.B['bytes']]]
            g = ops.split(I, v, groups)
            if g == 0:
                return need_text_(I, None, what, allow_none)
            if g == 1:
                return v
            if g == 2:
                return Sym(('decoded', v.term), S(I))
            I.raise_('TypeError', f'{what} must be str')
        if ops.is_none(I, v):
            return need_text_(I, None, what, allow_none)
        if ops.isinstance_(I, v, I.B['str']):
            return v
        if ops.isinstance_(I, v, I.B['bytes']):
            return Sym(('decoded', v.term), S(I))
        I.raise_('TypeError', f'{what} must be str')
    if isinstance(v, Extern) and v.name == P + 'CDATA':
        return v
    I.raise_('TypeError', f'Argument must be bytes or unicode, got {ops.single_type(I, v)!r} ({what})')


def make(I, tag, attrib=None, nsmap=None, kind='element', extra=None):
    if kind == 'element':
        tag = need_text(I, tag, 'tag name', allow_none=False)
        if isinstance(tag, str) and tag.startswith('{}'):
            tag = tag[2:]
        elif isinstance(tag, Cat) and isinstance(tag.parts[0], str) and tag.parts[0].startswith('{}'):
            tag = ops.norm_cat(I, (tag.parts[0][2:],) + tuple(tag.parts[1:]))
        if tag == '':
            I.raise_('ValueError', 'Empty tag name')
        if isinstance(tag, str) and tag.startswith('{'):
            if tag.endswith('}') or '}' not in tag:
                I.raise_('ValueError', f'Invalid tag name {tag!r}')
        elif isinstance(tag, str) and not name_ok(tag):
            I.raise_('ValueError', f'Invalid tag name {tag!r}')
    e = XElem(tag, I.new_id(), I.new_dict([]), kind)
    if nsmap is not None:
        nsmap = ops.resolve(I, nsmap)
    e.nsmap = nsmap
    if attrib is not None:
        for k, v in ops.dict_items(I, attrib):
            attr_set(I, e, k, v)
    for k, v in (extra or {}).items():
        attr_set(I, e, k, v)
    return e


def name_ok(s):
    return bool(s) and not any(c in s for c in ' \t\r\n<>&"\'{}/=:') and not s[0].isdigit()


def attr_set(I, e, k, v):
    k = need_text(I, k, 'attribute name', allow_none=False)
    v = need_text(I, v, 'attribute value', allow_none=False)
    if k == '':
        I.raise_('ValueError', 'Empty attribute name')
    d = e.attrib
    if isinstance(d, AbsMap):
        I.setd(d.known, ops.keyterm(I, k), (k, v))
    else:
        ops.dict_set(I, d, k, v)


def attr_get(I, e, k, default=None):
    d = e.attrib
    if isinstance(d, AbsMap):
        return ops.map_value(I, d, k) if ops.has_key(I, d, k) else default
    kk = ops.dict_find(I, d, k)
    return default if kk is None else d.d[kk][1]


def append(I, e, c):
    if not isinstance(c, XElem):
        I.raise_('TypeError', "Argument 'element' has incorrect type")
    if c.parent is not None:
        I.touch_list(c.parent.children)
        c.parent.children.remove(c)
    I.touch_list(e.children)
    e.children.append(c)
    I.sets(c, 'parent', e)


def insert(I, e, i, c):
    append(I, e, c)
    e.children.pop()
    e.children.insert(i, c)


def remove(I, e, c):
    if c not in e.children:
        I.raise_('ValueError', 'Element is not a child of this node.')
    I.touch_list(e.children)
    e.children.remove(c)
    I.sets(c, 'parent', None)


def snapshot(I, e):
    tag = ops.resolve(I, e.tag) if not isinstance(e.tag, Extern) else e.tag.name
    attrs = []
    if isinstance(e.attrib, AbsMap):
        attrs.append(('map', e.attrib.term))
        attrs += [(k, v) for k, v in e.attrib.known.values()]
    else:
        attrs = [(ops.resolve(I, k), ops.resolve(I, v)) for k, v in e.attrib.d.values()]
    return ('el', e.kind, tag, tuple(attrs), ops.resolve(I, e.text) if e.text is not None else None,
            tuple(snapshot(I, c) for c in e.children), ops.resolve(I, e.tail) if e.tail is not None else None,
            e.attrib if isinstance(e.attrib, AbsMap) else None,
            tuple(e.nsmap.d.values()) if isinstance(e.nsmap, ADict) else None)


def bare(t):
    """A snapshot without its namespace declarations."""
    return t[:5] + (tuple(bare(c) for c in t[5]),) + t[6:8]


def rebuild(I, t, parent=None):
    _, kind, tag, attrs, text, children, tail, amap, nsm = t
    e = XElem(Extern(tag) if kind != 'element' else tag, I.new_id(), I.new_dict([]), kind)
    if amap is not None:
        e.attrib = amap
    else:
        for k, v in attrs:
            ops.dict_set(I, e.attrib, k, v)
    if text is not None and not ops.truth(I, text):
        text = None
    if nsm is not None:
        e.nsmap = I.new_dict(list(nsm))
    e.text = text
    e.tail = tail
    e.parent = parent
    e.children = [rebuild(I, c, e) for c in children]
    return e


def copy_tree(I, e):
    return rebuild(I, snapshot(I, e))


def local_and_ns(I, tag):
    """(namespace or None, local name) of a tag value."""
    tag = ops.resolve(I, tag)
    if isinstance(tag, str):
        if tag.startswith('{'):
            n, _, l = tag[1:].partition('}')
            return n, l
        return None, tag
    if isinstance(tag, Cat):
        ps = tag.parts
        if isinstance(ps[0], str) and ps[0].startswith('{'):
            for i, p in enumerate(ps):
                if isinstance(p, str) and '}' in p:
                    a, _, b = p.partition('}')
                    n = ops.norm_cat(I, (ps[:i] + (a,)))
                    n = ops.getitem(I, n, ops.Slice(1, None, None)) if not isinstance(n, str) else n[1:]
                    return n, ops.norm_cat(I, (b,) + ps[i + 1:])
        if not isinstance(ps[0], str) and not ops.str_contains(I, ps[0], '{'):
            return None, tag
        return Sym(('ns', tag.term), S(I)), Sym(('local', tag.term), S(I))
    if isinstance(tag, Sym):
        if ops.str_contains(I, tag, '{'):
            l = Sym(('local', tag.term), S(I))
            return Sym(('ns', tag.term), S(I)), l
        return None, tag
    return None, tag


def to_xbytes(I, e, kind=bytes, opts=()):
    return XBytes(snapshot(I, e), kind, opts)


def path_steps(path, nsm):
    out = []
    for part in path.split('/'):
        out.append(part)
    return out


def qualify(I, step, namespaces):
    if isinstance(step, str) and ':' in step and not step.startswith('{') and step != '*':
        p, _, l = step.partition(':')
        ns = None
        if namespaces is not None:
            kk = ops.dict_find(I, namespaces, p) if isinstance(namespaces, ADict) else None
            if kk is not None:
                ns = namespaces.d[kk][1]
        if ns is None:
            I.raise_('SyntaxError', f'prefix {p!r} not found in prefix map')
        return ops.norm_cat(I, ['{', ns, '}', l])
    return step


def split_path(path):
    """Split on '/' outside of {...}"""
    out, depth, cur = [], 0, ''
    for c in path:
        if c == '{':
            depth += 1
        elif c == '}':
            depth -= 1
        if c == '/' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    out.append(cur)
    return out


def iterfind(I, e, path, namespaces=None):
    path = ops.resolve(I, path)
    if isinstance(path, Obj) and path.cls.name == P + 'QName':
        path = path.attrs['text']
    if isinstance(path, str):
        steps = split_path(path)
    else:
        steps = [path]
    cur = [e]
    deep = False
    for st in steps:
        if st == '.':
            continue
        if st == '':
            deep = True
            continue
        st = qualify(I, st, namespaces)
        nxt = []
        for x in cur:
            pool = list(descend(x))[1:] if deep else list(x.children)
            for c in pool:
                if c.kind != 'element':
                    continue
                if st == '*' or tag_matches(I, c.tag, st):
                    nxt.append(c)
        cur = nxt
        deep = False
    return cur


def tag_matches(I, tag, want):
    if isinstance(want, str) and (want.startswith('{*}') or want.endswith('}*')):
        n, l = local_and_ns(I, tag)
        wn, _, wl = want[1:].partition('}')
        return (wl == '*' or ops.truth(I, ops.eq(I, l, wl))) and (
            wn == '*' or (n is not None and ops.truth(I, ops.eq(I, n, wn))) or (wn == '' and n is None))
    return ops.truth(I, ops.eq(I, tag, want))


def descend(e):
    yield e
    for c in e.children:
        yield from descend(c)


def text_content(I, e):
    parts = []

    def walk(x):
        if x.kind == 'element' and x.text is not None:
            parts.append(x.text)
        for c in x.children:
            walk(c)
            if c.tail is not None:
                parts.append(c.tail)
    walk(e)
    return ops.norm_cat(I, parts)


# prefixes lxml gives to well-known namespaces
PREFIXES = {'http://www.w3.org/XML/1998/namespace': 'xml', 'http://www.w3.org/1999/xhtml': 'html',
            'http://www.w3.org/1999/XSL/Transform': 'xsl', 'http://www.w3.org/1999/02/22-rdf-syntax-ns#': 'rdf',
            'http://schemas.xmlsoap.org/wsdl/': 'wsdl', 'http://www.w3.org/2001/XMLSchema': 'xs',
            'http://www.w3.org/2001/XMLSchema-instance': 'xsi', 'http://purl.org/dc/elements/1.1/': 'dc'}


def scope(I, e):
    """Namespace declarations in scope: {prefix: namespace}, as lxml makes them; and the prefix of the element."""
    up = scope(I, e.parent)[0] if e.parent is not None else {}
    own = {}
    if isinstance(e.nsmap, ADict):
        for k, v in e.nsmap.d.values():
            own[ops.resolve(I, k)] = ops.resolve(I, v)
    out = dict(up)
    out.update(own)
    if e.kind != 'element':
        return out, None
    n = local_and_ns(I, e.tag)[0]
    if n is None:
        return out, None
    t = ops.term(I, n)
    for p, v in list(own.items()) + list(up.items()):
        if ops.term(I, v) == t and out.get(p) is v:
            return out, p
    p = PREFIXES.get(n) if isinstance(n, str) else None
    if p is None or p in own:
        i = 0
        while f'ns{i}' in own:
            i += 1
        p = f'ns{i}'
    out[p] = n
    return out, p


def full_nsmap(I, e):
    h = I.hooks.get('xml.nsmap')
    if h is not None:
        return h(I, e)
    x = e
    while x is not None:
        if isinstance(x.nsmap, AbsMap):
            return x.nsmap
        x = x.parent
    return I.new_dict(list(scope(I, e)[0].items()))


def attr(I, e, name):
    if name == 'tag':
        return e.tag
    if name == 'text':
        return e.text
    if name == 'tail':
        return e.tail
    if name == 'attrib':
        return e.attrib
    if name == 'nsmap':
        return full_nsmap(I, e)
    if name == 'sourceline':
        return Sym(('line', e.ident), TS([I.B['int']]))
    if name == 'prefix':
        return scope(I, e)[1]
    if name == 'base':
        return Sym((name, ('obj', e.ident)), TS([I.B['str'], I.B['NoneType']]))

    def it(gen):
        return Iter(iter(gen), I.new_id())
    if name == 'get':
        return nat(name, lambda key, default=None: attr_get(I, e, key_text(I, key), default))
    if name == 'set':
        return nat(name, lambda key, value: attr_set(I, e, key, value))
    if name in ('keys', 'items', 'values'):
        return Native(name, lambda I, a, k: I.call(I.getattr(e.attrib, name), a, k))
    if name == 'append':
        return nat(name, lambda c: append(I, e, c))
    if name == 'insert':
        return nat(name, lambda i, c: insert(I, e, i, c))
    if name == 'extend':
        return nat(name, lambda cs: [append(I, e, c) for c in I.to_list(cs)] and None)
    if name == 'remove':
        return nat(name, lambda c: remove(I, e, c))
    if name == 'clear':
        def clear(*a, **k):
            I.touch_list(e.children)
            e.children[:] = []
            I.sets(e, 'text', None)
            I.sets(e, 'tail', None)
            I.sets(e, 'attrib', I.new_dict([]))
        return nat(name, clear)
    if name == 'getchildren':
        return nat(name, lambda: I.new_list(e.children))
    if name == 'iterchildren':
        def ich(*tags, tag=None, reversed=False):
            tags = list(tags) + ([tag] if tag is not None else [])
            cs = list(e.children)
            if reversed:
                cs.reverse()
            return it(c for c in cs if not tags or any(tag_is(I, c, t) for t in tags))
        return nat(name, ich)
    if name == 'iter':
        return nat(name, lambda *tags: it(
            c for c in list(descend(e)) if not tags or any(tag_is(I, c, t) for t in tags)))
    if name == 'iterdescendants':
        return nat(name, lambda *tags: it(
            c for c in list(descend(e))[1:] if not tags or any(tag_is(I, c, t) for t in tags)))
    if name == 'itertext':
        def itx():
            r = text_content(I, e)
            return it([r] if ops.truth(I, r) else [])
        return nat(name, itx)
    if name == 'find':
        def find(path, namespaces=None):
            r = iterfind(I, e, path, namespaces)
            return r[0] if r else None
        return nat(name, find)
    if name == 'findall':
        return nat(name, lambda path, namespaces=None: I.new_list(iterfind(I, e, path, namespaces)))
    if name == 'iterfind':
        return nat(name, lambda path, namespaces=None: it(iterfind(I, e, path, namespaces)))
    if name == 'findtext':
        def findtext(path, default=None, namespaces=None):
            r = iterfind(I, e, path, namespaces)
            return default if not r else ('' if r[0].text is None else r[0].text)
        return nat(name, findtext)
    if name == 'getparent':
        return nat(name, lambda: e.parent)
    if name in ('getnext', 'getprevious'):
        def sib():
            if e.parent is None:
                return None
            i = e.parent.children.index(e) + (1 if name == 'getnext' else -1)
            return e.parent.children[i] if 0 <= i < len(e.parent.children) else None
        return nat(name, sib)
    if name in ('itersiblings', 'iterancestors'):
        def gen(*tags, preceding=False):
            if name == 'iterancestors':
                x, out = e.parent, []
                while x is not None:
                    out.append(x)
                    x = x.parent
            else:
                cs = e.parent.children if e.parent is not None else [e]
                i = cs.index(e)
                out = list(reversed(cs[:i])) if preceding else cs[i + 1:]
            return it(c for c in out if not tags or any(tag_is(I, c, t) for t in tags))
        return nat(name, gen)
    if name == 'index':
        def index(c):
            if c not in e.children:
                I.raise_('ValueError', 'Element is not a child of this node.')
            return e.children.index(c)
        return nat(name, index)
    if name == 'getroottree':
        return nat(name, lambda: tree_obj(I, e))
    if name == 'getroot':
        return nat(name, lambda: e)
    if name == 'makeelement':
        return nat(name, lambda tag, attrib=None, nsmap=None, **x: make(I, tag, attrib, nsmap, extra=x))
    if name == 'xpath':
        return Native(name, lambda I, a, k: xpath(I, e, *a, **k))
    if name == '__len__':
        return nat(name, lambda: len(e.children))
    if name == '__iter__':
        return nat(name, lambda: it(list(e.children)))
    if name in ('__getitem__',):
        return nat(name, lambda i: ops.getitem(I, e, i))
    if name == '__class__':
        return ops.type_of(I, e)
    if name == '__copy__' or name == '__deepcopy__':
        return nat(name, lambda *a: copy_tree(I, e))
    return None


def key_text(I, key):
    if isinstance(key, Obj) and key.cls.name == P + 'QName':
        return key.attrs['text']
    return key


def tag_is(I, c, t):
    t = ops.resolve(I, t)
    if isinstance(t, Extern):
        return isinstance(c.tag, Extern) and c.tag.name == t.name
    if isinstance(t, (tuple, AList)):
        return any(tag_is(I, c, x) for x in I.to_list(t))
    if c.kind != 'element':
        return False
    if t == '*':
        return True
    return tag_matches(I, c.tag, t)


LOCAL = re.compile(r'''(?://|(?P<deep>\.//|descendant::)|\./|)\*\[\s*local-name\(\)\s*=\s*(?:"(?P<a>[^"]*)"|'(?P<b>[^']*)')\s*\]''')


def xpath(I, e, expr, namespaces=None, **kw):
    h = I.hooks.get('xml.xpath')
    if h is not None:
        return h(I, e, expr, namespaces)
    expr = ops.resolve(I, expr)
    if isinstance(expr, str):
        out = []
        root = e
        while root.parent is not None:
            root = root.parent
        ok = True
        for alt in expr.split('|'):
            alt = alt.strip()
            if alt.startswith('//') and '[' not in alt and '/' not in alt[2:] and '(' not in alt and '@' not in alt:
                q = qualify(I, alt[2:], namespaces)
                out += [c for c in descend(root) if c.kind == 'element' and (q == '*' or tag_matches(I, c.tag, q))]
            elif LOCAL.fullmatch(alt):
                m = LOCAL.fullmatch(alt)
                here = root if alt.startswith('//') else e
                todo = descend(here) if alt.startswith('//') or m['deep'] else here.children
                for c in todo:
                    if c.kind == 'element' and (c is not here or alt.startswith('//')):
                        if I.truth(ops.eq(I, local_and_ns(I, c.tag)[1], m['a'] or m['b'])):
                            out.append(c)
            elif alt.startswith(('./', './/')) and '[' not in alt and '(' not in alt and '@' not in alt:
                out += iterfind(I, e, alt, namespaces)
            elif alt and all(ch.isalnum() or ch in ':_-*/' for ch in alt) and not alt.startswith('/'):
                out += iterfind(I, e, alt, namespaces)
            else:
                ok = False
        if ok:
            order = {x.ident: i for i, x in enumerate(descend(root))}
            seen = {}
            for x in out:
                seen[x.ident] = x
            return I.new_list(sorted(seen.values(), key=lambda x: order.get(x.ident, 0)))
    I.unmodelled.append(('xpath ' + repr(expr), I.where_repo()))
    return I.new_list([])


def set_(I, e, name, v):
    if name in ('text', 'tail'):
        I.sets(e, name, need_text(I, v, name))
    elif name == 'tag':
        I.sets(e, name, need_text(I, v, name, allow_none=False))


def tree_obj(I, e):
    o = Obj(I.extern_classes[P + '_ElementTree'], I.new_id())
    o.attrs['_root'] = e
    return o


def root_of(I, x):
    if isinstance(x, Obj) and '_root' in x.attrs:
        return x.attrs['_root']
    return x


# ---------------------------------------------------------------------- module functions
def install(I):
    C, E, V = I.extern_classes, I.extern_models, I.extern_values
    B = I.B

    def cls(name, *bases):
        c = Cls(P + name, [b if isinstance(b, Cls) else (C[P + b] if P + b in C else B[b]) for b in bases] or
                [B['object']], builtin=True)
        C[P + name] = c
        return c
    cls('Error', 'Exception')
    cls('LxmlError', 'Error')
    cls('LxmlSyntaxError', 'LxmlError', 'SyntaxError')
    cls('ParseError', 'LxmlSyntaxError')
    cls('XMLSyntaxError', 'ParseError')
    cls('DocumentInvalid', 'LxmlError')
    cls('SchemaError', 'LxmlError')
    cls('XMLSchemaError', 'LxmlError')
    cls('XMLSchemaParseError', 'XMLSchemaError')
    cls('XPathError', 'LxmlError')
    cls('XPathEvalError', 'XPathError')
    cls('_Element')
    cls('_Comment', '_Element')
    cls('_ProcessingInstruction', '_Element')
    cls('_Entity', '_Element')
    cls('ElementBase', '_Element')
    cls('_ElementTree')
    cls('XMLSchema')
    cls('XMLParser')
    cls('Resolver')
    cls('QName')
    for n in ('Error', 'LxmlError', 'LxmlSyntaxError', 'ParseError', 'XMLSyntaxError', 'DocumentInvalid', 'SchemaError',
              'XMLSchemaError', 'XMLSchemaParseError', 'XPathError', 'XPathEvalError', '_Element', '_Comment',
              '_ProcessingInstruction', '_Entity', 'ElementBase', '_ElementTree', 'XMLSchema', 'XMLParser', 'Resolver',
              'QName'):
        V[P + n] = C[P + n]
    V[P + '_XPathEvaluatorBase'] = Extern(P + '_XPathEvaluatorBase')
    V['lxml.etree'] = Extern('lxml.etree')

    E[P + 'Element'] = lambda I, a, k: element(I, *a, **k)

    def element(I, _tag, attrib=None, nsmap=None, **extra):
        return make(I, _tag, attrib, nsmap, extra=extra)

    def subelement(I, a, k):
        parent, rest = a[0], a[1:]
        e = element(I, *rest, **k)
        append(I, parent, e)
        return e
    E[P + 'SubElement'] = subelement

    def comment(I, a, k):
        e = make(I, Extern(P + 'Comment'), kind='comment')
        e.text = a[0] if a else None
        return e
    E[P + 'Comment'] = comment

    def pi(I, a, k):
        e = make(I, Extern(P + 'ProcessingInstruction'), kind='pi')
        e.text = a[1] if len(a) > 1 else None
        return e
    E[P + 'ProcessingInstruction'] = E[P + 'PI'] = pi

    def iselement(I, a, k):
        return isinstance(a[0], XElem)
    E[P + 'iselement'] = iselement

    def tostring(I, a, k):
        e = root_of(I, a[0])
        enc = ops.resolve(I, k.get('encoding'))
        kind = str if enc in ('unicode',) or (isinstance(enc, Cls) and enc.name == 'str') else bytes
        if isinstance(e, XElem):
            return to_xbytes(I, e, kind)
        if e is None:
            I.raise_('TypeError', "Type 'NoneType' cannot be serialized.")
        if isinstance(e, Sym):
            return Sym(('tostring', e.term), TS([B['bytes'] if kind is bytes else B['str']]))
        I.raise_('TypeError', 'cannot be serialized')
    E[P + 'tostring'] = tostring
    E[P + 'tounicode'] = lambda I, a, k: tostring(I, a, {'encoding': 'unicode'})

    def parser_schema(p):
        return p.attrs.get('schema') if isinstance(p, Obj) else None

    def fromstring(I, a, k):
        x = ops.resolve(I, ops.native_of(a[0]))
        parser = k.get('parser', a[1] if len(a) > 1 else None)
        h = I.hooks.get('xml.fromstring')
        doc = None
        if h is not None:
            doc = h(I, x, parser)
        if doc is None:
            if isinstance(x, XBytes):
                doc = rebuild(I, x.tree)
            elif isinstance(x, (Sym, Cat)):
                if isinstance(x, Sym) and not ops.all_in(I.types(x), ('str', 'bytes')):
                    if ops.is_none(I, x):
                        I.raise_('ValueError', "can only parse strings")
                    if not ops.isinstance_(I, x, (B['str'], B['bytes'])):
                        I.raise_('ValueError', 'can only parse strings')
                t = ops.term(I, x)
                if not I.atom(('wellformed', t), f'{show(t)} is well-formed XML'):
                    I.raise_(C[P + 'XMLSyntaxError'], 'not well-formed')
                doc = XElem(Sym(('roottag', t), S(I)), I.new_id(), I.new_dict([]))
                I.unmodelled.append(('parse of unknown text', I.where_repo()))
            elif isinstance(x, (str, bytes)):
                doc = parse_const(I, x)
            else:
                I.raise_('ValueError', 'can only parse strings')
        I.event('fromstring', 'fromstring', [x, parser], {}, doc)
        sch = parser_schema(parser)
        if sch is not None:
            if not valid(I, sch, doc, x):
                I.raise_(C[P + 'XMLSyntaxError'], 'document does not validate')
        return doc
    E[P + 'fromstring'] = E[P + 'XML'] = fromstring

    def valid(I, schema, doc, src=None):
        """Outcome of schema validation is unknown: both continue.  Recorded as an event either way."""
        h = I.hooks.get('xml.valid')
        if h is not None:
            r = h(I, schema, doc)
        else:
            r = I.atom(('valid', ops.term(I, schema), ops.term(I, doc)), 'document is schema-valid')
        I.event('validate', 'validate', [schema, doc], {}, r)
        return r

    def parse_const(I, x):
        import lxml.etree as L
        try:
            root = L.fromstring(x)
        except L.XMLSyntaxError as e:
            I.raise_(C[P + 'XMLSyntaxError'], str(e))
        return from_host(I, root)

    def parse(I, a, k):
        src = a[0]
        parser = k.get('parser', a[1] if len(a) > 1 else None)
        I.event('io', P + 'parse', [src, parser])
        h = I.hooks.get('xml.parse')
        if h is not None:
            return h(I, src, parser)
        e = XElem(Sym(('roottag', ops.term(I, src)), S(I)), I.new_id(), I.new_dict([]))
        return tree_obj(I, e)
    E[P + 'parse'] = parse
    C[P + '_ElementTree'].attrs['getroot'] = Native('getroot', lambda I, a, k: a[0].attrs['_root'])

    def tree_find(name):
        return Native(name, lambda I, a, k: I.call(attr(I, a[0].attrs['_root'], name), a[1:], k))
    for n in ('find', 'findall', 'iter', 'xpath', 'findtext', 'iterfind'):
        C[P + '_ElementTree'].attrs[n] = tree_find(n)
    E[P + 'ElementTree'] = lambda I, a, k: tree_obj(I, a[0])

    # schema objects
    def schema_init(I, a, k):
        o, src = a[0], (a[1] if len(a) > 1 else k.get('etree', k.get('file')))
        if src is None:
            I.raise_(C[P + 'XMLSchemaParseError'], 'No tree or file given')
        I.setd(o.attrs, 'source', root_of(I, src))
        if isinstance(src, (str,)) or 'file' in k:
            I.event('io', P + 'XMLSchema', [src])
        I.event('schema', 'XMLSchema', [root_of(I, src)], {}, o)
    A = C[P + 'XMLSchema'].attrs
    A['__init__'] = Native('XMLSchema.__init__', schema_init)

    def assert_valid(I, a, k):
        if a[1] is None:
            I.raise_('TypeError', 'invalid input object: NoneType')
        if not valid(I, a[0], root_of(I, a[1])):
            I.raise_(C[P + 'DocumentInvalid'], Sym(('validation-message',), S(I)))
    A['assertValid'] = Native('assertValid', assert_valid)

    def assert_(I, a, k):
        if not valid(I, a[0], root_of(I, a[1])):
            I.raise_('AssertionError', Sym(('validation-message',), S(I)))
    A['assert_'] = Native('assert_', assert_)
    A['validate'] = Native('validate', lambda I, a, k: valid(I, a[0], root_of(I, a[1])))
    A['__call__'] = A['validate']
    A['error_log'] = Prop_error_log(I)

    def parser_init(I, a, k):
        o = a[0]
        for n, v in k.items():
            I.setd(o.attrs, n, v)
        r = Obj(C[P + '_ResolverRegistry'], I.new_id())
        I.setd(r.attrs, 'list', I.new_list([]))
        I.setd(o.attrs, 'resolvers', r)
        I.event('parser', 'XMLParser', [o], k)
    cls('_ResolverRegistry')

    def radd(I, a, k):
        lst = a[0].attrs['list']
        I.touch_list(lst.items)
        lst.items.append(a[1])
        I.event('resolver', 'add', a)
    C[P + '_ResolverRegistry'].attrs['add'] = Native('resolvers.add', radd)
    C[P + 'XMLParser'].attrs['__init__'] = Native('XMLParser.__init__', parser_init)
    R = C[P + 'Resolver'].attrs
    for n in ('resolve_string', 'resolve_filename', 'resolve_file', 'resolve_empty'):
        def mk(n):
            def f(I, a, k):
                r = Sym(('resolved', n, len(I.events)), TS([I.B['opaque']]))
                I.event('resolve', n, a[1:], k, r)
                return r
            return Native(n, f)
        R[n] = mk(n)
    R['resolve'] = Native('Resolver.resolve', lambda I, a, k: None)  # left to the next resolver

    def qname_init(I, a, k):
        o = a[0]
        text = a[1]
        tag = k.get('tag', a[2] if len(a) > 2 else None)
        if isinstance(text, XElem):
            if text.kind != 'element':
                I.raise_('ValueError', 'Invalid input tag of type comment')
            text = text.tag
        if isinstance(text, Extern):
            I.raise_('ValueError', 'Invalid tag name')
        if tag is not None:
            if text is not None and ops.truth(I, text):
                text = ops.norm_cat(I, ['{', text, '}', tag])
            else:
                text = tag
        text = need_text(I, text, 'QName', allow_none=False)
        ns, local = local_and_ns(I, text)
        for n, v in (('text', text), ('namespace', ns), ('localname', local)):
            I.setd(o.attrs, n, v)
    C[P + 'QName'].attrs['__init__'] = Native('QName.__init__', qname_init)
    C[P + 'QName'].attrs['__str__'] = Native('QName.__str__', lambda I, a, k: a[0].attrs['text'])
    E[P + 'strip_tags'] = E[P + 'strip_elements'] = None
    del E[P + 'strip_tags'], E[P + 'strip_elements']

    def cleanup(I, a, k):
        return None
    E[P + 'cleanup_namespaces'] = cleanup
    E[P + 'indent'] = cleanup
    E[P + 'XMLSchema.assertValid'] = assert_valid

    def lenient_subclass(name):
        c = C[P + name]
        c.attrs.setdefault('__init__', Native(name + '.__init__', lambda I, a, k: None))
    lenient_subclass('Resolver')


def Prop_error_log(I):
    from .values import Prop
    return Prop(Native('error_log', lambda I, a, k: Sym(('error_log',), TS([I.B['opaque']]))))


def from_host(I, el):
    import lxml.etree as L
    if el.tag is L.Comment:
        e = XElem(Extern(P + 'Comment'), I.new_id(), I.new_dict([]), 'comment')
    elif el.tag is L.ProcessingInstruction:
        e = XElem(Extern(P + 'ProcessingInstruction'), I.new_id(), I.new_dict([]), 'pi')
    else:
        e = XElem(el.tag, I.new_id(), I.new_dict(list(el.attrib.items())))
    e.text = el.text
    e.tail = el.tail
    e.nsmap = I.new_dict(list(el.nsmap.items())) if e.kind == 'element' else None
    for c in el:
        x = from_host(I, c)
        x.parent = e
        e.children.append(x)
    return e
