"""C06-C12: complex types - fields, rendering, parsing, nil, lists, sharing, namespaces."""
from lxml import etree

from soapfish import namespaces as ns
from soapfish import xsd

XSI_NIL = '{http://www.w3.org/2001/XMLSchema-instance}nil'


# ---------------------------------------------------------------- shapes
class Inner(xsd.ComplexType):
    x = xsd.Element(xsd.String, minOccurs=0)
    k = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)


class InnerChild(Inner):
    y = xsd.Element(xsd.String, minOccurs=0)


class Grp(xsd.Group):
    g = xsd.Element(xsd.String, minOccurs=0)
    gl = xsd.ListElement(xsd.String, 'gitem')


class AGrp(xsd.AttributeGroup):
    ga = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
    gb = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL, tagname='g-b')


def declared_field(kind, tag):
    """'E:<type>:<options>' (and A, L, R): a field with the options, a letter each."""
    what, t, options = kind.split(':')
    types = {'s': xsd.String, 'i': xsd.Integer, 'b': xsd.Boolean, 'c': Inner, 'o': Inner(), 'n': 'probe.model.Inner', 'S': xsd.String(), 'I': 'soapfish.xsd.Integer',
             'g': Grp, 'go': Grp(), 'gn': 'probe.model.Grp', 'a': AGrp, 'ao': AGrp(), 'an': 'probe.model.AGrp'}
    kw = {}
    if what == 'R':
        if 't' in options:
            kw['tagname'] = tag
        return xsd.Ref(types[t], **({'minOccurs': 0} if 'o' in options else {}), **kw)
    if 'n' in options:
        kw['nillable'] = True
    if 'd' in options:
        kw['default'] = DEFAULTS[t.lower()]
    if 's' in options:
        kw['namespace'] = 'urn:own'
    if what == 'L':
        if 'm' in options:
            kw['minOccurs'] = 1
        if 'x' in options:
            kw['maxOccurs'] = 3
        if 'u' in options:
            kw['maxOccurs'] = xsd.UNBOUNDED
        return xsd.ListElement(types[t], tag, **kw)
    if 't' in options:
        kw['tagname'] = tag
    if what == 'A':
        return xsd.Attribute(types[t], use=xsd.Use.OPTIONAL if 'o' in options else xsd.Use.REQUIRED, **kw)
    return xsd.Element(types[t], minOccurs=0 if 'o' in options else 1, **kw)


DEFAULTS = {'s': 'the default', 'i': 7, 'b': True}


def declared_value(what):
    """-> a value of the type, its text, attributes and children when rendered"""
    name, t = what
    if t in ('s', 'S'):
        v = text('TEXT' + name)
        return v, v, {}, []
    if t in ('i', 'I'):
        v = int_between('INT' + name, None, None)
        return v, str(v), {}, []
    if t == 'b':
        v = flip('BOOL' + name)
        return v, 'true' if v else 'false', {}, []
    o, (at, kids) = inner('INNER' + name)
    return o, None, at, kids


def declared_fill(obj, name, kind, tag):
    what, t, options = kind.split(':')
    if what == 'R':
        return fill(obj, name, 'group' if t[0] == 'g' else 'agroup', tag)
    xname = tag if what == 'L' or 't' in options else name
    if what == 'L':
        out = []
        for i in range(anyof(1, 2) if 'm' in options else anyof(0, 1, 2)):
            v, shown, at, kids = (xsd.NIL, None, {XSI_NIL: 'true'}, []) if 'n' in options and flip('nil item') else declared_value((name + str(i), t))
            getattr(obj, name).append(v)
            out.append((xname, at, shown, kids))
        return {}, out
    needed = what == 'A' and 'o' not in options and 'd' not in options
    how = 'value' if needed else anyof('value', 'unset', 'nil') if 'n' in options and what == 'E' else anyof('value', 'unset')
    if how == 'nil':
        setattr(obj, name, xsd.NIL)
        return {}, [(xname, {XSI_NIL: 'true'}, None, [])]
    if how == 'unset':
        if 'd' not in options:
            return {}, []
        shown, at, kids = {'s': 'the default', 'i': '7', 'b': 'true'}[t.lower()], {}, []
    else:
        v, shown, at, kids = declared_value((name, t))
        if what == 'A' and t in 'sS' and 'd' in options and flip('empty text'):
            v = shown = ''
        setattr(obj, name, v)
    return ({xname: shown}, []) if what == 'A' else ({}, [(xname, at, shown, kids)])


def field_of(kind, tag):
    if ':' in kind:
        return declared_field(kind, tag)
    if kind == 'elem':
        return xsd.Element(xsd.String, minOccurs=0)
    if kind == 'tagged':
        return xsd.Element(xsd.String, minOccurs=0, tagname=tag)
    if kind == 'int':
        return xsd.Element(xsd.Integer, minOccurs=0)
    if kind == 'bool':
        return xsd.Element(xsd.Boolean, minOccurs=0)
    if kind == 'complex':
        return xsd.Element(Inner, minOccurs=0)
    if kind == 'ctagged':
        return xsd.Element(Inner, minOccurs=0, tagname=tag)
    if kind == 'byname':
        return xsd.Element('probe.model.Inner', minOccurs=0)
    if kind == 'list':
        return xsd.ListElement(xsd.String, tag)
    if kind == 'ilist':
        return xsd.ListElement(xsd.Integer, tag, maxOccurs=xsd.UNBOUNDED)
    if kind == 'clist':
        return xsd.ListElement(Inner, tag, minOccurs=0, maxOccurs=5)
    if kind == 'group':
        return xsd.Ref(Grp)
    if kind == 'agroup':
        return xsd.Ref(AGrp)
    if kind == 'attr':
        return xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
    if kind == 'tattr':
        return xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL, tagname=tag)
    if kind == 'iattr':
        return xsd.Attribute(xsd.Integer, use=xsd.Use.OPTIONAL)
    if kind == 'rattr':
        return xsd.Attribute(xsd.String)
    if kind == 'relem':
        return xsd.Element(xsd.String)
    if kind == 'rtagged':
        return xsd.Element(xsd.Integer, tagname=tag)
    if kind == 'rcomplex':
        return xsd.Element(Inner, tagname=tag)
    if kind == 'delem':
        return xsd.Element(xsd.String, default='the default', tagname=tag)
    if kind == 'dattr':
        return xsd.Attribute(xsd.String, default='the default', tagname=tag)
    if kind == 'nelem':
        return xsd.Element(xsd.String, nillable=True, tagname=tag)
    if kind == 'ncomplex':
        return xsd.Element(Inner, nillable=True, minOccurs=0)
    if kind == 'nlist':
        return xsd.ListElement(xsd.Integer, tag, nillable=True, minOccurs=0, maxOccurs=xsd.UNBOUNDED)
    if kind == 'rlist':
        return xsd.ListElement(xsd.String, tag, minOccurs=1, maxOccurs=3)
    if kind == 'nsed':
        return xsd.Element(Inner, namespace='urn:own', tagname=tag)
    raise TypeError(kind)


def shape(kinds):
    """A class with one inherited and up to two own fields of the given kinds."""
    tags = ['x.tag-a', 'tag-a', 'TAG-A']
    f = [field_of(k, t) for k, t in zip(kinds, tags)]
    if len(f) == 1:
        class Shape(xsd.ComplexType):
            a = f[0]
    elif len(f) == 2:
        class Shape(xsd.ComplexType):
            zz = f[0]
            aa = f[1]
        return Shape, list(zip(['zz', 'aa'], kinds, tags))
    else:
        class Base(xsd.ComplexType):
            mm = f[0]

        class Shape(Base):
            zz = f[1]
            aa = f[2]
        return Shape, list(zip(['mm', 'zz', 'aa'], kinds, tags))
    return Shape, list(zip(['a'], kinds, tags))


def text(name):
    s = sym(name, str)
    assume(s != '')
    return s


def inner(name):
    """-> object and its picture"""
    which = anyof('empty', 'x', 'k', 'xk', 'child')
    if which == 'child':
        o = InnerChild(x=text(name + '.x'), y=text(name + '.y'))
        return o, ({}, [('x', {}, o.x, []), ('y', {}, o.y, [])])
    o = Inner()
    at, kids = {}, []
    if 'x' in which:
        t = text(name + '.x')
        o.x = t
        kids.append(('x', {}, t, []))
    if 'k' in which:
        t = text(name + '.k')
        o.k = t
        at['k'] = t
    return o, (at, kids)


def fill(obj, name, kind, tag):
    """Sets the field; returns (attributes, children) rendering must add. A child is (tag, attributes, text, children)."""
    if ':' in kind:
        return declared_fill(obj, name, kind, tag)
    if kind in ('elem', 'tagged', 'attr', 'tattr', 'rattr'):
        if kind != 'rattr' and flip(name + ' unset'):
            return {}, []
        t = text('TEXT' + name)
        setattr(obj, name, t)
        xname = tag if kind in ('tagged', 'tattr') else name
        return ({xname: t}, []) if 'attr' in kind else ({}, [(xname, {}, t, [])])
    if kind in ('relem', 'delem', 'dattr', 'nelem'):
        how = anyof('text', 'unset', 'nil') if kind == 'nelem' else anyof('text', 'unset')
        xname = name if kind == 'relem' else tag
        t = None
        if how == 'nil':
            setattr(obj, name, xsd.NIL)
            return {}, [(xname, {XSI_NIL: 'true'}, None, [])]
        if how == 'text':
            t = text('TEXT' + name)
            setattr(obj, name, t)
        elif kind in ('delem', 'dattr'):
            t = 'the default'
        if t is None:
            return {}, []
        return ({xname: t}, []) if kind == 'dattr' else ({}, [(xname, {}, t, [])])
    if kind == 'rtagged':
        n = int_between('INT' + name, None, None)
        setattr(obj, name, n)
        return {}, [(tag, {}, str(n), [])]
    if kind in ('nlist', 'rlist'):
        out = []
        for i in range(anyof(1, 2, 3)):
            if kind == 'rlist':
                v = shown = text('ITEM' + name + str(i))
            elif flip('nil item'):
                v, shown = xsd.NIL, None
            else:
                v = int_between('ITEM' + name + str(i), None, None)
                shown = str(v)
            getattr(obj, name).append(v)
            out.append((tag, {XSI_NIL: 'true'} if v is xsd.NIL else {}, shown, []))
        return {}, out
    if kind == 'ncomplex' and flip('nil'):
        setattr(obj, name, xsd.NIL)
        return {}, [(name, {XSI_NIL: 'true'}, None, [])]
    if kind in ('int', 'iattr'):
        if flip(name + ' unset'):
            return {}, []
        n = int_between('INT' + name, None, None)
        setattr(obj, name, n)
        return ({name: str(n)}, []) if kind == 'iattr' else ({}, [(name, {}, str(n), [])])
    if kind == 'bool':
        b = anyof(None, True, False)
        setattr(obj, name, b)
        return {}, [] if b is None else [(name, {}, 'true' if b else 'false', [])]
    if kind in ('complex', 'ctagged', 'byname', 'rcomplex', 'ncomplex', 'nsed'):
        if flip(name + ' unset'):
            return {}, []
        o, (at, kids) = inner('INNER' + name)
        setattr(obj, name, o)
        return {}, [(tag if kind in ('ctagged', 'rcomplex', 'nsed') else name, at, None, kids)]
    if kind in ('list', 'ilist'):
        n = anyof(0, 1, 2)
        out = []
        for i in range(n):
            v = text('ITEM' + name + str(i)) if kind == 'list' else int_between('ITEM' + name + str(i), None, None)
            getattr(obj, name).append(v)
            out.append((tag, {}, v if kind == 'list' else str(v), []))
        return {}, out
    if kind == 'clist':
        n = anyof(0, 1, 2)
        out = []
        for i in range(n):
            o = Inner(x=text('ITEM' + name + str(i)))
            getattr(obj, name).append(o)
            out.append((tag, {}, None, [('x', {}, o.x, [])]))
        return {}, out
    if kind == 'group':
        g = getattr(obj, name)
        out = []
        if flip('group field set'):
            g.g = text('GROUP' + name)
            out.append(('g', {}, g.g, []))
        if flip('group list filled'):
            t = text('GITEM' + name)
            g.gl.append(t)
            out.append(('gitem', {}, t, []))
        return {}, out
    if kind == 'agroup':
        g = getattr(obj, name)
        at = {}
        if flip('group attribute set'):
            g.ga = text('GATTR' + name)
            at['ga'] = g.ga
        if flip('group attribute with tag name set'):
            g.gb = text('GBTTR' + name)
            at['g-b'] = g.gb
        return at, []
    raise TypeError(kind)


def picture(e):
    return (e.tag, dict(e.attrib), e.text, [picture(c) for c in e])


def same_pictures(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if g[0] != w[0] or len(g[1]) != len(w[1]):
            return False
        for k in w[1]:
            if k not in g[1] or g[1][k] != w[1][k]:
                return False
        if w[2] is None:
            if g[2] is not None and not w[3]:
                return False
        elif g[2] != w[2]:
            return False
        if not same_pictures(g[3], w[3]):
            return False
    return True


def expected(obj, spec):
    at, kids = {}, []
    for name, kind, tag in spec:
        a, c = fill(obj, name, kind, tag)
        at.update(a)
        kids.extend(c)
    return at, kids


def render_shape(kinds):
    cls, spec = shape(kinds)
    obj = cls()
    at, kids = expected(obj, spec)
    before = freeze(obj)
    if len(kinds) > 2 or flip('rendered by xml()'):
        root = tree_of(obj.xml('root'))
    else:
        root = etree.Element('root')
        cls().render(root, obj)
    check(root.tag == 'root', 'the root element has the given tag')
    got = picture(root)
    want = ('root', at, None, kids)
    check(same_pictures([got], [want]), 'every set field is rendered exactly once, in order, under its tag', got, want)
    check(freeze(obj) == before, 'rendering does not change the object')


def same_value(a, b):
    """Field by field comparison of two objects of the model."""
    if isinstance(a, xsd.ComplexType):
        if type(a) is not type(b):
            return False
        for f in type(a)._meta.all:
            if not same_value(getattr(a, f._name), getattr(b, f._name)):
                return False
        return True
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if a is None or b is None or a is xsd.NIL or b is xsd.NIL:
        return a is b
    return a == b


def as_read(v):
    """An InnerChild is read back as the declared class: only base fields are compared there."""
    return v


def roundtrip(kinds):
    if list(kinds).count('group') > 1 or list(kinds).count('agroup') > 1:
        check(True, 'two references to one group are ambiguous')
        stop()
    cls, spec = shape(kinds)
    obj = cls()
    expected(obj, spec)
    values = [getattr(obj, n) for n, k, t in spec]
    child = any(isinstance(i, InnerChild) for v in values for i in (v if isinstance(v, list) else [v]))
    if child:
        stop()
    data = obj.xml('root')
    back = cls.parsexml(data)
    check(type(back) is cls, 'parsing yields an object of the class')
    for n, k, t in spec:
        check(same_value(getattr(obj, n), getattr(back, n)), 'parsing reads back what rendering wrote: ' + k, getattr(back, n))
    again = cls.parsexml(data)
    check(again is not back and len(shared(back, again, cls, xsd.NIL)) == 0, 'parsing creates a fresh object each time', shared(back, again, cls, xsd.NIL))


def noise(e, where):
    kind = anyof('nothing', 'comment', 'pi', 'unknown', 'unknown namespaced')
    if kind == 'comment':
        e.append(etree.Comment(sym('COMMENT' + where, str)))
    elif kind == 'pi':
        e.append(etree.ProcessingInstruction('target', 'data'))
    elif kind == 'unknown':
        u = etree.SubElement(e, 'unknown-' + where)
        u.text = sym('UNKNOWN' + where, str)
        if flip('unknown element with a child'):
            etree.SubElement(u, 'aa').text = 'x'
    elif kind == 'unknown namespaced':
        u = etree.SubElement(e, '{urn:other}unknown-' + where)


NAMES = {'elem', 'int', 'bool', 'complex', 'attr', 'iattr', 'rattr', 'byname'}


def parse_noise(kinds, namespace):
    """Known elements between comments, processing instructions and unknown elements."""
    cls, spec = shape(kinds)
    e = etree.Element('root')
    want = []
    noise(e, '0')
    q = '{urn:doc}' if namespace else ''
    for name, kind, tag in spec:
        xname = tag if kind in ('tagged', 'tattr', 'ctagged', 'list', 'clist', 'ilist') else name
        if kind in ('elem', 'tagged'):
            v = text('TEXT' + name)
            etree.SubElement(e, q + xname).text = v
        elif kind in ('attr', 'tattr', 'rattr'):
            v = text('TEXT' + name)
            e.set(xname, v)
        elif kind == 'int':
            n = int_between('INT' + name, None, None)
            etree.SubElement(e, q + xname).text = str(n)
            v = n
        elif kind == 'iattr':
            n = int_between('INT' + name, None, None)
            e.set(xname, str(n))
            v = n
        elif kind == 'list':
            v = [text('ITEM' + name + '0'), text('ITEM' + name + '1')]
            etree.SubElement(e, q + xname).text = v[0]
            noise(e, 'l')
            etree.SubElement(e, q + xname).text = v[1]
        elif kind in ('complex', 'ctagged'):
            c = etree.SubElement(e, q + xname)
            noise(c, 'c')
            t = text('INNER' + name)
            etree.SubElement(c, q + 'x').text = t
            v = Inner(x=t)
        elif kind == 'clist':
            c = etree.SubElement(e, q + xname)
            t = text('INNER' + name)
            etree.SubElement(c, q + 'x').text = t
            c.set('k', t)
            v = [Inner(x=t, k=t)]
        elif kind == 'group':
            t = text('GROUP' + name)
            etree.SubElement(e, q + 'g').text = t
            v = Grp(g=t)
        elif kind == 'agroup':
            t = text('GATTR' + name)
            e.set('ga', t)
            e.set('g-b', t)
            v = AGrp(ga=t, gb=t)
        want.append(v)
    noise(e, '9')
    before = freeze(e)
    obj = cls.parse_xmlelement(e)
    for (name, kind, tag), v in zip(spec, want):
        check(same_value(v, getattr(obj, name)), 'known elements are read whatever stands between them: ' + kind, getattr(obj, name))
    check(freeze(e) == before, 'parsing does not change the document')


def crossed_names():
    """The XML name of one field is the Python name of another."""
    class Crossed(xsd.ComplexType):
        first = xsd.Element(xsd.String, tagname='second', minOccurs=0)
        second = xsd.Element(xsd.String, tagname='first', minOccurs=0)
        third = xsd.Attribute(xsd.String, tagname='fourth', use=xsd.Use.OPTIONAL)
        fourth = xsd.Attribute(xsd.String, tagname='third', use=xsd.Use.OPTIONAL)
    o = Crossed()
    for n in ('first', 'second', 'third', 'fourth'):
        if flip(n + ' set'):
            setattr(o, n, text(n))
    b = Crossed.parsexml(o.xml('root'))
    for n in ('first', 'second', 'third', 'fourth'):
        check(same_value(getattr(o, n), getattr(b, n)), 'a field is read from the element it was written to', n)


TAGS = ('x.y', 'y', 'Y', 'x-y', 'x_y', '_y', 'x1', '\u00f6', '\u00d6.y', 'root', 'nil', 'item')


def any_tag(namespace, what):
    """Every kind of XML name, in one class."""
    class Deep(xsd.ComplexType):
        x = xsd.Element(xsd.String, minOccurs=0)

    class Tags(xsd.ComplexType):
        pass
    fields = {'Element': lambda t: xsd.Element(xsd.String, tagname=t, minOccurs=0, namespace=namespace), 'Attribute': lambda t: xsd.Attribute(xsd.String, tagname=t, use=xsd.Use.OPTIONAL),
              'ListElement': lambda t: xsd.ListElement(xsd.String, t, minOccurs=0, namespace=namespace), 'complex': lambda t: xsd.Element(Deep, tagname=t, minOccurs=0, namespace=namespace)}
    d = {}
    for i, t in enumerate(TAGS):
        d['f%d' % i] = fields[what](t)
    cls = type('Tags', (xsd.ComplexType,), d)
    o = cls()
    one = anyof(*range(len(TAGS)))
    for i in range(len(TAGS)):
        if i == one or i == 0 or (i + one) % 3 == 0:
            t = text('TEXT%d' % i)
            setattr(o, 'f%d' % i, [t] if what == 'ListElement' else Deep(x=t) if what == 'complex' else t)
    b = cls.parsexml(o.xml('root'))
    for i in range(len(TAGS)):
        check(same_value(getattr(o, 'f%d' % i), getattr(b, 'f%d' % i)), 'a field is read from the element it was written to', TAGS[i])


def required_attribute():
    class Doc(xsd.ComplexType):
        a = xsd.Attribute(xsd.String)
        b = xsd.Attribute(xsd.Integer, use=xsd.Use.REQUIRED, tagname='b-b')
        c = xsd.Element(xsd.String, minOccurs=0)
        p = xsd.Attribute(xsd.String, default='the default')
    d = Doc()
    sp = anyof('unset', 'set', 'none')
    if sp == 'set':
        d.p = text('P')
    elif sp == 'none':
        d.p = None
    sa, sb = flip('a set'), flip('b set')
    if sa:
        d.a = text('A')
    if sb:
        d.b = int_between('B', None, None)
    d.c = text('C')
    try:
        d.xml('root')
    except ValueError:
        check(not (sa and sb and sp != 'none'), 'an object with all required attributes is refused')
        return
    check(sa and sb and sp != 'none', 'a required attribute without value is refused')


def nested_depth():
    """Three levels, the middle one a list."""
    class Leaf(xsd.ComplexType):
        v = xsd.Element(xsd.String, tagname='val', minOccurs=0)

    class Mid(xsd.ComplexType):
        leaf = xsd.Element(Leaf, minOccurs=0)
        leaves = xsd.ListElement(Leaf, 'lf')
        n = xsd.Attribute(xsd.Integer, use=xsd.Use.OPTIONAL)

    class Top(xsd.ComplexType):
        mids = xsd.ListElement(Mid, 'mid', minOccurs=0)
        one = xsd.Element(Mid, minOccurs=0)
    t = Top()
    for i in range(anyof(0, 1, 2)):
        m = Mid()
        if flip('leaf'):
            m.leaf = Leaf(v=text('V' + str(i)))
        for j in range(anyof(0, 2)):
            m.leaves.append(Leaf(v=text('W' + str(i) + str(j))))
        if flip('attribute'):
            m.n = int_between('N' + str(i), None, None)
        t.mids.append(m)
    if flip('one'):
        t.one = Mid(leaf=Leaf(v=text('ONE')))
    b = Top.parsexml(t.xml('root'))
    check(same_value(t, b), 'nested objects are read back at every depth', b)


# ---------------------------------------------------------------- C06
class Token:
    """What the acceptance check returned for a value."""
    def __init__(self, value):
        self.value = value


class Marked(xsd.SimpleType):
    """A simple type with unknown acceptance check."""
    def accept(self, value):
        emit('accept', value)
        if value is None or isinstance(value, Token):
            return value
        if flip('value accepted'):
            return Token(value)
        raise ValueError('refused')

    def pythonvalue(self, xmlvalue):
        return xmlvalue

    def xmlvalue(self, value):
        return 'x'


class MarkedList(xsd.ComplexType):
    a = xsd.Element(Marked, minOccurs=0)


class Plain(xsd.ComplexType):
    a = xsd.Element(Marked, minOccurs=0)
    t = xsd.Element(Marked, minOccurs=0, tagname='t-t')
    n = xsd.Element(Marked(), minOccurs=1, nillable=True)
    l = xsd.ListElement(Marked, 'li')
    k = xsd.Attribute(Marked, use=xsd.Use.OPTIONAL)


class PlainGroup(xsd.Group):
    ga = xsd.Element(Marked, minOccurs=0)


class PlainChild(Plain):
    b = xsd.Element(Marked)
    grp = xsd.Ref(PlainGroup)


def is_token(v, value):
    return isinstance(v, Token) and identical(v.value, value)


def quiet(obj):
    """Checks run while the probe prepares an object do not count."""
    return len(events('probe', 'accept'))


def accepted_field(field, how):
    cls = PlainChild
    target = PlainChild()
    v = anything('VALUE', xsd.SimpleType, Token, None) if how != 'parse' else sym('VALUE', str)
    owner, name = target, field
    if how == 'group':
        owner, name = target.grp, 'ga'
    if field not in ('l', 'ga') and how in ('assign', 'group') and flip('field already has a value'):
        try:
            setattr(owner, name, 'before')
        except ValueError:
            stop()
    before = freeze(target)
    n0 = len(events('probe', 'accept'))
    try:
        if how in ('assign', 'group'):
            setattr(owner, name, v)
        elif how == 'keyword':
            target = owner = cls(**{field: v})
        else:
            tags = {'t': 't-t', 'l': 'li'}
            e = etree.Element('root')
            if field == 'k':
                e.set('k', v)
            else:
                etree.SubElement(e, tags.get(field, field)).text = v
            target = cls.parse_xmlelement(e)
            owner = target.grp if field == 'ga' else target
    except ValueError:
        check(any(identical(ev.args[0], v) for ev in events('probe', 'accept')[n0:]) or v is xsd.NIL or v is None,
              'a value is refused only by the acceptance check of its type', v)
        if how in ('assign', 'group'):
            check(freeze(target) == before, 'a refused value leaves the object unchanged', target)
        return
    if v is xsd.NIL:
        check(field == 'n', 'nil is stored only in a nillable field')
        return
    got = getattr(owner, name)
    if field == 'l':
        check(len(got) == 1 and is_token(got[0], v), 'what is stored is what the acceptance check returned', got)
    else:
        check(is_token(got, v), 'what is stored is what the acceptance check returned', got)


def unknown_field(how):
    name_ = sym('NAME', str)
    for f in ('a', 't', 'n', 'l', 'k', 'b', 'grp', '_xmlelement'):
        assume(name_ != f)
    obj = PlainChild()
    before = freeze(obj)
    try:
        if how == 'assign':
            setattr(obj, name_, 'x')
        elif how == 'concrete':
            obj.zzz = 1
        elif how == 'tag':
            setattr(obj, 't-t', 'x')
        else:
            PlainChild(zzz='x')
    except (ValueError, AttributeError):
        check(freeze(obj) == before, 'a refused name leaves the object unchanged')
        return
    fail('a name that is not a declared field is refused')


def nil_field(kind, nillable, optional=False):
    low = 0 if optional else 1
    class Doc(xsd.ComplexType):
        a = xsd.Element(xsd.String, nillable=nillable, minOccurs=low) if kind == 'elem' else \
            xsd.Element(Inner, nillable=nillable, minOccurs=low) if kind == 'complex' else \
            xsd.Attribute(xsd.String, nillable=nillable, use=xsd.Use.OPTIONAL if optional else xsd.Use.REQUIRED) if kind == 'attr' else \
            xsd.ListElement(xsd.String, 'item', nillable=nillable, minOccurs=low, maxOccurs=3)
    d = Doc()
    how = anyof('assign', 'keyword', 'append', 'insert', 'extend', 'setitem', 'whole') if kind == 'list' else anyof('assign', 'keyword')
    try:
        if kind != 'list':
            if how == 'assign':
                d.a = xsd.NIL
            else:
                d = Doc(a=xsd.NIL)
        elif how == 'append':
            d.a.append(xsd.NIL)
        elif how == 'insert':
            d.a.insert(0, xsd.NIL)
        elif how == 'extend':
            d.a.extend([xsd.NIL])
        elif how == 'setitem':
            d.a.append('x')
            d.a[0] = xsd.NIL
        elif how in ('assign', 'whole'):
            d.a = [xsd.NIL]
        else:
            d = Doc(a=[xsd.NIL])
    except ValueError:
        check(not nillable, 'nil is refused for a nillable field')
        check(d.a is None or kind == 'list' and all(x is not xsd.NIL for x in d.a), 'a refused nil is not stored')
        return
    check(nillable, 'nil is stored in a field that is not nillable')
    got = d.a[0] if kind == 'list' else d.a
    check(got is xsd.NIL, 'nil is kept as nil')
    if kind == 'attr':
        return
    root = tree_of(d.xml('root'))
    check(len(root) == 1, 'a nil value is rendered as one element', picture(root))
    e = root[0]
    check(e.tag == ('item' if kind == 'list' else 'a'), 'a nil value is rendered under its tag')
    check(len(e) == 0 and e.text is None and e.get(XSI_NIL) == 'true', 'a nil value is rendered as an empty element with xsi:nil', picture(root))
    b = Doc.parsexml(d.xml('root'))
    got = b.a[0] if kind == 'list' else b.a
    check(got is xsd.NIL and (kind != 'list' or len(b.a) == 1), 'a rendered nil is read back as nil', got)


def nil_read(kind, nillable, optional=False):
    low = 0 if optional else 1
    class Doc(xsd.ComplexType):
        a = xsd.Element(xsd.String, nillable=nillable, tagname='item', minOccurs=low) if kind == 'elem' else \
            xsd.Element(Inner, nillable=nillable, tagname='item', minOccurs=low) if kind == 'complex' else \
            xsd.ListElement(xsd.String if kind == 'list' else Inner, 'item', nillable=nillable, minOccurs=low, maxOccurs=3)
    e = etree.Element('root')
    c = etree.SubElement(e, 'item')
    value = None
    if flip('with content'):
        if kind in ('elem', 'list'):
            value = text('TEXT')
            c.text = value
        else:
            value = text('TEXT')
            etree.SubElement(c, 'x').text = value
    mark = anyof('absent', 'true', '1', 'false', '0', 'other')
    if mark == 'other':
        m = sym('MARK', str)
        assume(m.strip() not in ('true', '1', 'false', '0') and ws(m, 'collapse') not in ('true', '1', 'false', '0'))
        c.set(XSI_NIL, m)
    elif mark != 'absent':
        c.set(XSI_NIL, mark)
    if flip('unrelated nil attribute'):
        c.set('nil', 'true')
    isnil = mark in ('true', '1')
    try:
        d = Doc.parse_xmlelement(e)
    except ValueError:
        check(isnil and not nillable or mark == 'other', 'an ordinary value is refused', mark)
        return
    got = d.a if kind in ('elem', 'complex') else d.a[0]
    if mark == 'other':
        check(got is not xsd.NIL, 'an element is read as nil exactly when xsi:nil is true', mark)
        return
    check((got is xsd.NIL) == isnil, 'an element is read as nil exactly when xsi:nil is true', mark)
    check(nillable or not isnil, 'nil is read into a field that is not nillable')
    if not isnil:
        got = got.x if kind in ('complex', 'clist') else got
        check(got is None and value is None or got == value, 'an element that is not nil is read as its value', got)


# ---------------------------------------------------------------- C10
def list_item(how, n):
    """Items arrive one way or the other; n are there already."""
    class Doc(xsd.ComplexType):
        l = xsd.ListElement(Marked, 'li')
    d = Doc()
    for i in range(n):
        d.l.append(Token(i))
    kept = list(d.l)
    values = [anything('VALUE' + str(i), Token, None) for i in range(2)]
    for v in values:
        assume(v is not xsd.NIL)
    one = values[:1]
    try:
        if how == 'append':
            d.l.append(values[0])
            want = kept + one
        elif how == 'insert':
            d.l.insert(0, values[0])
            want = one + kept
        elif how == 'extend':
            d.l.extend(values)
            want = kept + values
        elif how == 'extend generator':
            d.l.extend(v for v in values)
            want = kept + values
        elif how == 'iadd':
            d.l += values
            want = kept + values
        elif how == 'setitem':
            d.l[0] = values[0]
            want = one + kept[1:]
        elif how == 'setslice':
            d.l[0:1] = values
            want = values + kept[1:]
        elif how == 'assign':
            d.l = values
            want = values
        elif how == 'keyword':
            d = Doc(l=values)
            want = values
        elif how == 'parse':
            texts = [sym('TEXT' + str(i), str) for i in range(2)]
            e = etree.Element('root')
            for t in texts:
                etree.SubElement(e, 'li').text = t
            values = want = texts
            d = Doc.parse_xmlelement(e)
    except ValueError:
        check(len(d.l) >= 0 and all(isinstance(x, Token) for x in d.l), 'a refused item is not stored', d.l)
        return
    check(len(d.l) == len(want), 'every item is stored once', d.l)
    for got, v in zip(d.l, want):
        check(isinstance(v, Token) and got is v or is_token(got, v), 'every stored item is what the acceptance check returned', got)


def list_whole(what):
    """A list is given as a whole: by anything with items, but not by a text or the like."""
    class Doc(xsd.ComplexType):
        l = xsd.ListElement(xsd.String, 'li')
    class Other(xsd.ComplexType):
        x = xsd.Element(xsd.String)
    a, b = text('FIRST'), text('SECOND')
    d = Doc()
    d.l.append('kept')
    other = Doc()
    other.l.append(a)
    other.l.append(b)
    good = {'list': [a, b], 'tuple': (a, b), 'generator': (x for x in (a, b)), 'typed': other.l, 'own': d.l, 'values': {1: a, 2: b}.values()}
    bad = {'str': a, 'bytes': sym('BYTES', bytes), 'dict': anyof({}, {'k': a}), 'int': sym('N', int), 'object': object(),
           'bool': anyof(True, False), 'complex': Other(x='x'), 'class': Doc, 'nil': xsd.NIL}
    how = anyof('assign', 'keyword')
    value = good[what] if what in good else bad[what]
    want = ['kept'] if what == 'own' else [a, b]
    try:
        if how == 'assign':
            d.l = value
        else:
            d = Doc(l=value)
    except ValueError:
        check(what in bad, 'anything with items is taken as a list', value)
        check(len(d.l) == 1 and d.l[0] == 'kept', 'a refused value changes nothing', d.l)
        return
    check(what in good, 'what has no items is refused as a list', value)
    check(len(d.l) == len(want) and all(identical(x, y) for x, y in zip(d.l, want)), 'every item is stored once', d.l)
    check(what == 'own' or d.l is not value, 'lists are not shared', d.l)


def list_positions():
    """Items of text replaced and inserted at given places."""
    class Doc(xsd.ComplexType):
        l = xsd.ListElement(xsd.String, 'li')
    values = [text('FIRST'), text('SECOND'), text('THIRD')]
    d = Doc(l=values)
    new = text('NEW')
    i = anyof(0, 1, 2, -1, -3)
    how = anyof('set', 'insert', 'slice')
    want = list(values)
    if how == 'set':
        d.l[i] = new
        want[i] = new
    elif how == 'insert':
        d.l.insert(i, new)
        want.insert(i, new)
    else:
        d.l[i:] = (new, new)
        want[i:] = [new, new]
    check(len(d.l) == len(want) and all(identical(x, y) for x, y in zip(d.l, want)), 'items go to the place given', d.l)
    try:
        d.l[0] = 5
    except ValueError:
        check(all(identical(x, y) for x, y in zip(d.l, want)), 'a refused item is not stored', d.l)
    else:
        fail('a refused item is not stored', d.l)


def list_bounds(kind):
    """Occurrence bounds of unknown size."""
    lo = anyof(None, 0, 1, 2)
    hi = anyof(None, 0, 1, 2, xsd.UNBOUNDED)
    assume(lo is None or hi is None or lo <= hi)

    class Doc(xsd.ComplexType):
        l = xsd.ListElement(xsd.String if kind == 'simple' else Inner, 'li', minOccurs=lo, maxOccurs=hi)
    n = anyof(0, 1, 2, 3)
    items = [text('ITEM' + str(i)) if kind == 'simple' else Inner(x=text('ITEM' + str(i))) for i in range(n)]
    how = anyof('append', 'assign', 'insert', 'extend', 'iadd', 'grow')
    bad = lo is not None and n < lo or hi is not None and n > hi
    d = Doc()
    try:
        if how == 'append':
            for x in items:
                d.l.append(x)
        elif how == 'insert':
            for x in items:
                d.l.insert(0, x)
        elif how == 'extend':
            d.l.extend(items)
        elif how == 'iadd':
            d.l += items
        elif how == 'grow':
            d.l[0:0] = items
        else:
            d.l = items
        root = tree_of(d.xml('root'))
    except ValueError:
        check(bad, 'a list within its bounds is refused', lo, hi, n)
        return
    check(not bad, 'a list outside its bounds is refused at the latest when rendered', lo, hi, n)
    check(len(root) == n, 'every item is rendered')


def list_bounds_symbolic():
    """Bounds that are unknown numbers, against lists of every length up to the k-limit."""
    lo, hi = int_between('MINOCCURS', 0, None), int_between('MAXOCCURS', 1, None)
    assume(lo <= hi)

    class Doc(xsd.ComplexType):
        l = xsd.ListElement(xsd.String, 'li', minOccurs=lo, maxOccurs=hi)
    n = anyof(0, 1, 2, 3, 4)
    d = Doc()
    try:
        for i in range(n):
            d.l.append('x')
        d.xml('root')
    except ValueError:
        check(n < lo or n > hi, 'a list within its bounds is refused', n)
        return
    check(lo <= n and n <= hi, 'a list outside its bounds is refused at the latest when rendered', n)


# ---------------------------------------------------------------- C11
def independent(kinds, how):
    cls, spec = shape(kinds)
    first = cls() if how != 'parsed' else cls.parsexml(cls_document(kinds))
    pristine = freeze(cls())
    second = cls()
    both = shared(first, second)
    check(len(both) == 0, 'two objects share no mutable state', both)
    before = freeze(second)
    expected(first, spec)
    check(freeze(second) == before, 'filling one object does not change another', second)
    third = cls()
    check(freeze(third) == pristine, 'filling an object does not change the objects created later', third)
    both = shared(first, third)
    check(len(both) == 0, 'a later object shares no mutable state with an earlier one', both)


def cls_document(kinds):
    cls, spec = shape(kinds)
    values = {n: 'x' for n, k, t in spec if k == 'rattr'}
    for n, k, t in spec:
        if k.startswith('A:') and 'o' not in k.split(':')[2]:
            values[n] = {'s': 'x', 'i': 3, 'b': False}[k.split(':')[1].lower()]
        if k.startswith('L:') and 'm' in k.split(':')[2]:
            values[n] = [{'s': 'x', 'i': 3, 'b': False}.get(k.split(':')[1].lower()) or Inner(x='y')]
    return cls(**values).xml('root')


def nested_independent():
    class Doc(xsd.ComplexType):
        a = xsd.Element(Inner, minOccurs=0)
        l = xsd.ListElement(xsd.String, 'li')
        g = xsd.Ref(Grp)
        d = xsd.Element(xsd.String, default='dflt', minOccurs=0)

    class Sub(Doc):
        more = xsd.ListElement(Inner, 'more')
    pristine = freeze(Sub())
    x, y = Sub(), Sub(l=['p'])
    x.l.append('q')
    x.g.g = 'r'
    x.g.gl.append('s')
    x.a = Inner(x='t')
    x.d = 'u'
    x.more.append(Inner(x='v'))
    check(len(y.l) == 1 and y.l[0] == 'p', 'appending to one list does not change another')
    check(y.g.g is None and len(y.g.gl) == 0, 'setting a group field of one object does not change another', y.g)
    check(y.a is None and y.d == 'dflt' and len(y.more) == 0, 'setting fields of one object does not change another', y)
    check(freeze(Sub()) == pristine, 'defaults stay as declared')
    check(Grp().g is None and len(Grp().gl) == 0, 'the group class itself is unchanged')


def from_same_list():
    """One Python list given to two objects."""
    class Doc(xsd.ComplexType):
        l = xsd.ListElement(xsd.String, 'li')
    src = [text('A')]
    a, b = Doc(l=src), Doc(l=src)
    a.l.append('x')
    check(len(b.l) == 1, 'objects created from the same list do not share it', b.l)
    c = Doc()
    c.l = a.l
    c.l.append('y')
    check(len(a.l) == 2, 'a list taken from another object is not shared with it', a.l)


# ---------------------------------------------------------------- C12
def namespaces_of(qualified):
    """Own namespace, schema namespace or the caller's, for elements and lists at two depths."""
    efd = xsd.ElementFormDefault.QUALIFIED if qualified == 'qualified' else anyof(None, xsd.ElementFormDefault.UNQUALIFIED)
    own_e, own_l, own_n = anyof(None, 'urn:own-e'), anyof(None, 'urn:own-l'), anyof(None, 'urn:own-n')

    class Leaf(xsd.ComplexType):
        v = xsd.Element(xsd.String, minOccurs=0)
        lv = xsd.ListElement(xsd.String, 'lv')
        k = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)

    class G(xsd.Group):
        gv = xsd.Element(xsd.String, minOccurs=0)

    class Doc(xsd.ComplexType):
        e = xsd.Element(xsd.String, minOccurs=0, namespace=own_e)
        l = xsd.ListElement(xsd.String, 'li', namespace=own_l)
        nested = xsd.Element(Leaf, minOccurs=0, namespace=own_n)
        many = xsd.ListElement(Leaf, 'many', namespace=own_n)
        k = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL, tagname='kk')
        g = xsd.Ref(G)

    doc_ns = leaf_ns = None
    if flip('type in a schema'):
        doc_ns = 'urn:doc'
        xsd.Schema('urn:doc', complexTypes=[Doc])
    if flip('nested type in another schema'):
        leaf_ns = 'urn:leaf'
        xsd.Schema('urn:leaf', complexTypes=[Leaf])
    caller = anyof(None, 'urn:caller')

    def q(n, *candidates):
        for c in candidates:
            if c is not None:
                return '{' + c + '}' + n if qualified == 'qualified' else n
        return n
    d = Doc(e='1', l=['2'], k='3')
    d.nested = Leaf(v='4', lv=['5'], k='6')
    d.many = [Leaf(v='7')]
    d.g.gv = '8'
    root = etree.Element('root')
    Doc().render(root, d, caller, efd)
    outer = doc_ns or caller
    want = [q('e', own_e, outer), q('li', own_l, outer), q('nested', own_n, outer), q('many', own_n, outer), q('gv', outer)]
    got = [c.tag for c in root]
    check(got == want, 'child elements are qualified as declared', got, want)
    passed = own_n or outer
    inner_want = [q('v', leaf_ns, passed), q('lv', leaf_ns, passed)]
    check([c.tag for c in root[2]] == inner_want, 'nested elements follow the same rule', [c.tag for c in root[2]], inner_want)
    check([c.tag for c in root[3]] == inner_want[:1], 'elements of list items follow the same rule', [c.tag for c in root[3]], inner_want)
    check(list(root.attrib) == ['kk'] and list(root[2].attrib) == ['k'], 'attributes are never qualified', list(root.attrib), list(root[2].attrib))


def xml_namespace():
    """The same through xml(): the root takes the namespace given."""
    n = anyof(None, 'urn:caller')
    efd = anyof(None, xsd.ElementFormDefault.QUALIFIED, xsd.ElementFormDefault.UNQUALIFIED)
    d = Inner(x='1', k='2')
    root = tree_of(d.xml('root', namespace=n, elementFormDefault=efd))
    check(root.tag == ('{urn:caller}root' if n else 'root'), 'the root element takes the namespace given', root.tag)
    want = '{urn:caller}x' if n and efd == xsd.ElementFormDefault.QUALIFIED else 'x'
    check(root[0].tag == want, 'child elements are qualified as declared', root[0].tag)
    check(list(root.attrib) == ['k'], 'attributes are never qualified')
    b = Inner.parsexml(d.xml('root', namespace=n, elementFormDefault=efd))
    check(b.x == '1' and b.k == '2', 'qualified elements are read back', b)


def schema_by_element():
    """A schema sets the namespace of the types and elements given to it."""
    class Leaf(xsd.ComplexType):
        v = xsd.Element(xsd.String, minOccurs=0)
    el = xsd.Element(Leaf(), namespace=anyof(None, 'urn:other'))
    s = xsd.Schema('urn:t', elementFormDefault=xsd.ElementFormDefault.QUALIFIED, elements={'leaf': el})
    root = etree.Element('root')
    el.render(root, 'leaf', Leaf(v='1'), s.targetNamespace, s.elementFormDefault)
    own = el.namespace
    check(root[0].tag == '{' + own + '}leaf', 'a schema element is qualified', root[0].tag)
    check(root[0][0].tag == '{urn:t}v', 'the children of a type follow its schema', root[0][0].tag)


def accepted_class(how):
    """A field of a class holds objects of that class and of those derived from it, of no other."""
    class Base(xsd.ComplexType):
        x = xsd.Element(xsd.String, minOccurs=0)

    class Mid(Base):
        y = xsd.Element(xsd.String, minOccurs=0)

    class Leaf(Mid):
        z = xsd.Element(xsd.String, minOccurs=0)

    class Sibling(Base):
        y = xsd.Element(xsd.String, minOccurs=0)

    class Doc(xsd.ComplexType):
        m = xsd.Element(Mid, minOccurs=0)
        l = xsd.ListElement(Mid, 'li')
    made = anyof(Base, Mid, Leaf, Sibling, Inner)()
    fits = isinstance(made, Mid)
    d = Doc()
    try:
        if how == 'assign':
            d.m = made
        elif how == 'keyword':
            d = Doc(m=made)
        elif how == 'append':
            d.l.append(made)
        else:
            d.l = [made]
    except ValueError:
        check(not fits, 'an object of the declared class, or of one derived from it, is accepted')
        check(d.m is None and len(d.l) == 0, 'a refused value leaves the object unchanged')
        return
    check(fits, 'an object of any other class is refused')
    check((d.m if how in ('assign', 'keyword') else d.l[0]) is made, 'what is stored is what was accepted')
