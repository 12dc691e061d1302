"""Models of the libraries the analysed program uses."""
import keyword
import re as _re
import urllib.parse as _up

from . import dtmodel, methods, ops, remodel, xmlmodel
from .facts import ZERO
from . import jinja
from .stubs_src import SRC
from .values import (AbsMap, AbsRaise, AColl, ADict, AList, Analysis, ASet, Bound, CachedProp, Cat, Cls, Extern, Func,
                     Iter, Module, NATIVE, Native, Obj, Partial, Prop, Regex, Sym, TS, XBytes, XElem, show)

xml_attr = xmlmodel.attr
xml_set = xmlmodel.set_
dt_attr = dtmodel.dt_attr
match_attr = remodel.match_attr
regex_attr = remodel.regex_attr


def S(I):
    return TS([I.B['str']])


def install(I):
    I.extern_models = {}
    I.extern_values = {}
    I.extern_classes = {}
    I.known_subs = {'int': [I.B['bool']], 'date': [I.B['datetime']], 'tzinfo': [I.B['timezone']]}
    I.always_true = {'function', 'method', 'type', 'module', 'Match', 'Pattern'}
    I.binop_hooks = {}
    I.unary_hooks = {}
    I.obj_attr_hooks = {}
    I.sym_attr_hooks = {}
    I.attr_types = {}
    xmlmodel.install(I)
    dtmodel.install(I)
    remodel.install(I)
    E, V, B = I.extern_models, I.extern_values, I.B

    # ------------------------------------------------------------ library functions analysed from source
    for lib, src in SRC.items():
        m = I.load_source('<stub>.' + lib, src, f'<stub {lib}>')
        for n, v in list(m.vars.items()):
            if not n.startswith('_') and n not in ('re', 'datetime', 'timedelta', 'timezone'):
                V[f'{lib}.{n}'] = v
    m = I.load_source('<stub>.jinja2', jinja.SRC, '<stub jinja2>')
    m.vars['__template'] = jinja.template_native(I)
    for n in ('Environment', 'PackageLoader', 'FileSystemLoader', 'Undefined', 'UndefinedError', 'TemplateNotFound', 'Template'):
        V['jinja2.' + n] = m.vars[n]
    V['itertools.chain'].attrs['from_iterable'] = I.modules['<stub>.itertools'].vars['_from_iterable']
    V['datetime.datetime'], V['datetime.timedelta'], V['datetime.timezone'] = B['datetime'], B['timedelta'], B['timezone']

    iso = I.modules['<stub>.iso8601'].vars

    def known_layout(I, a, k):
        x = ops.resolve(I, a[0])
        if isinstance(x, str):
            return True
        if isinstance(x, Cat):
            return all(isinstance(p, str) or p.term[0] in ('pad', 'digits', 'str') for p in x.parts)
        return False
    iso['_known_layout'] = Native('known_layout', known_layout)

    def unknown_text(I, a, k):
        t = ops.term(I, a[0])
        if not I.atom(('iso8601-text', t), f'{show(t)} is a date/time text'):
            I.raise_(iso['ParseError'], 'Unable to parse date string')
        s = Sym(('iso8601', t), TS([B['datetime']]))
        return s
    iso['_unknown_text'] = Native('unknown_text', unknown_text)

    def micros(I, a, k):
        x = ops.resolve(I, a[0])
        if x is None:
            return 0
        if isinstance(x, str):
            return int((x + '000000')[:6])
        if isinstance(x, Sym) and x.term[0] == 'pad' and x.term[1] == 6:
            return Sym(x.term[2], TS([B['int']]))
        if isinstance(x, Sym) and x.term[0] == 'pad' and x.term[1] == 3:
            return ops.binop(I, 'Mult', Sym(x.term[2], TS([B['int']])), 1000)
        return dtmodel.bounded(I, ('micros', ops.term(I, x)), 0, 999999)
    iso['_micros'] = Native('micros', micros)
    V['iso8601.iso8601'] = Extern('iso8601')
    V['iso8601.ParseError'] = iso['ParseError']

    # ------------------------------------------------------------ functools and friends
    E['functools.partial'] = lambda I, a, k: Partial(a[0], list(a[1:]), dict(k))
    E['functools.partialmethod'] = lambda I, a, k: Partial(a[0], list(a[1:]), dict(k))

    def cached_property(I, a, k):
        return CachedProp(a[0])
    E['functools.cached_property'] = cached_property

    def copy_(deep):
        def f(I, a, k):
            return copy_value(I, a[0], deep, {})
        return f
    E['copy.copy'] = copy_(False)
    E['copy.deepcopy'] = copy_(True)

    # ------------------------------------------------------------ logging, warnings: no effect on results
    def logger(I, a, k):
        return Extern('logging.Logger')
    E['logging.getLogger'] = logger
    for n in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception', 'log', 'addHandler', 'setLevel',
              'isEnabledFor', 'removeHandler'):
        def mk(n):
            def f(I, a, k):
                I.event('log', n, a, k)
                return None
            return f
        E['logging.Logger.' + n] = mk(n)
        E['logging.' + n] = mk(n)
    E['logging.Logger.isEnabledFor'] = lambda I, a, k: I.atom(('log-enabled', len(I.events)))
    E['logging.NullHandler'] = E['logging.StreamHandler'] = lambda I, a, k: Sym(('handler',), TS([B['opaque']]))
    E['logging.basicConfig'] = lambda I, a, k: None
    for n in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'):
        import logging
        V['logging.' + n] = getattr(logging, n)
    E['warnings.warn'] = lambda I, a, k: None
    E['warnings.simplefilter'] = E['warnings.filterwarnings'] = lambda I, a, k: None
    E['traceback.format_exc'] = lambda I, a, k: Sym(('traceback', len(I.events)), S(I))
    E['traceback.format_exception'] = lambda I, a, k: I.new_list([Sym(('traceback', len(I.events)), S(I))])
    E['traceback.print_exc'] = lambda I, a, k: None

    def exc_info(I, a, k):
        if I.exc_stack:
            x = I.exc_stack[-1]
            return (x.cls, x, None)
        return (None, None, None)
    E['sys.exc_info'] = exc_info
    V['sys.version_info'] = (3, 12, 3, 'final', 0)
    V['sys.maxsize'] = 2 ** 63 - 1
    V['sys.modules'] = AbsMap(('sys.modules',), I.new_id(), lambda I, kt, key: I.modules.get(key, Extern(key))
                              if isinstance(key, str) else Sym(('module', kt)))
    V['typing.TYPE_CHECKING'] = False
    E['typing.cast'] = lambda I, a, k: a[1]

    # ------------------------------------------------------------ enum, abc, decimal, numbers
    for n in ('Enum', 'StrEnum', 'IntEnum', 'auto'):
        V['enum.' + n] = B[n]
    E['enum.unique'] = lambda I, a, k: a[0]
    V['abc.ABC'] = B['ABC']
    E['abc.abstractmethod'] = lambda I, a, k: a[0]
    V['decimal.Decimal'] = B['Decimal']
    V['decimal.InvalidOperation'] = B['InvalidOperation']
    V['decimal.DecimalException'] = B['DecimalException']
    num = Cls('Number', [B['object']], builtin=True)
    V['numbers.Number'] = V['numbers.Real'] = num
    V['types.FunctionType'] = V['types.LambdaType'] = B['function']
    V['types.MethodType'] = B['method']
    V['types.ModuleType'] = B['module']
    V['types.GeneratorType'] = B['generator']
    V['types.NoneType'] = B['NoneType']
    E['types.MappingProxyType'] = lambda I, a, k: a[0]
    V['collections.OrderedDict'] = B['OrderedDict']
    V['collections.abc.Iterable'] = Extern('collections.abc.Iterable')

    # ------------------------------------------------------------ inspect / importlib / keyword / uuid
    E['inspect.isclass'] = lambda I, a, k: isinstance(ops.resolve(I, a[0]), Cls) or (
        isinstance(a[0], Sym) and ops.isinstance_(I, a[0], B['type']))
    E['inspect.isfunction'] = lambda I, a, k: isinstance(a[0], Func)
    E['inspect.ismodule'] = lambda I, a, k: isinstance(a[0], Module)

    def getmembers(I, a, k):
        o = a[0]
        pred = a[1] if len(a) > 1 else k.get('predicate')
        items = sorted(o.vars.items()) if isinstance(o, Module) else sorted(o.attrs.items())
        return I.new_list([(n, v) for n, v in items if pred is None or I.truth(I.call(pred, [v], {}))])
    E['inspect.getmembers'] = getmembers

    def import_(I, a, k):
        name = ops.resolve(I, a[0])
        I.event('import', 'importlib.import_module', a, k)
        if isinstance(name, str):
            return I.import_module(name)
        h = I.hooks.get('importlib.import_module')
        s = Sym(('module', ops.term(I, name)), TS([B['module']]))
        return s
    E['importlib.import_module'] = import_
    E['keyword.iskeyword'] = lambda I, a, k: keyword.iskeyword(a[0]) if isinstance(ops.resolve(I, a[0]), str) else I.atom(
        ('iskeyword', ops.term(I, a[0])))
    V['keyword.kwlist'] = I.new_list(keyword.kwlist)
    n_uuid = [0]

    def uuid4(I, a, k):
        s = Sym(('uuid', len(I.events)), TS([B['opaque']]))
        I.event('fresh', 'uuid', a, k, s)
        return s
    for n in ('uuid1', 'uuid4'):
        E['uuid.' + n] = uuid4

    def token(I, a, k):
        s = Sym(('uuid', len(I.events)), S(I))
        I.event('fresh', 'token', a, k, s)
        return s
    E['secrets.token_hex'] = E['secrets.token_urlsafe'] = token

    # ------------------------------------------------------------ hashes
    def hasher(name):
        def new(I, a, k):
            o = Obj(I.as_class(Extern('hashlib.Hash')), I.new_id())
            data = ops.resolve(I, a[0]) if a else b''
            if isinstance(data, str) or (isinstance(data, (Sym, Cat)) and ops.all_in(I.types(data), ('str',))):
                I.raise_('TypeError', 'Strings must be encoded before hashing')
            if isinstance(data, bytes):
                import hashlib
                hx = getattr(hashlib, name)(data).hexdigest()
            else:
                hx = Sym(('hexdigest', name, ops.term(I, data)), S(I))
            o.attrs['hexdigest'] = Native('hexdigest', lambda I, aa, kk: hx)
            return o
        return new
    for n in ('md5', 'sha1', 'sha256', 'sha512', 'blake2b'):
        E['hashlib.' + n] = hasher(n)

    # ------------------------------------------------------------ http
    def responses(I):
        import http.client
        return I.new_dict(list(http.client.responses.items()))
    V['http.client.responses'] = responses(I)
    import http
    for st in http.HTTPStatus:
        V['http.HTTPStatus.' + st.name] = int(st)

    # ------------------------------------------------------------ os / urllib
    import os
    V['os.sep'] = '/'
    V['os.linesep'] = '\n'
    V['os.environ'] = AbsMap(('os.environ',), I.new_id(), lambda I, kt, key: Sym(('env', kt), S(I)))

    def pure(name, fn, types=('str',)):
        def f(I, a, k):
            a = [ops.resolve(I, ops.native_of(x)) for x in a]
            if all(isinstance(x, NATIVE) for x in a) and not k:
                try:
                    return methods.wrap(I, fn(*a))
                except (TypeError, ValueError, AttributeError) as e:
                    I.raise_(type(e).__name__, str(e))
            if any(x is None for x in a[:1]):
                I.raise_('TypeError', f'{name}: expected str, not None')
            tt = tuple(ops.term(I, x) for x in a) + tuple((kk, ops.term(I, v)) for kk, v in sorted(k.items()))
            return Sym(('ext', name) + tt, TS([B[t] for t in types]))
        return f
    for n in ('join', 'dirname', 'basename', 'normpath'):
        E['os.path.' + n] = E['posixpath.' + n] = pure('os.path.' + n, getattr(os.path, n))

    def path_from(name):
        # between absolute paths the working directory does not matter
        def f(I, a, k):
            a = [ops.resolve(I, x) for x in a]
            if a and len(a) <= 2 and all(isinstance(x, str) and x.startswith('/') for x in a) and len(a) == (2 if name == 'relpath' else 1):
                return (os.path.relpath if name == 'relpath' else os.path.normpath)(*a)
            if name == 'relpath' and len(a) == 2 and all(isinstance(x, str) and not x.startswith('/') for x in a):
                deep = '/\0/\1/\2/\3/\4/\5/\6/'
                r = os.path.relpath(deep + a[0], deep + a[1])
                if not any(ch in r for ch in '\0\1\2\3\4\5\6'):
                    return r
            return Sym(('ext', 'os.path.' + name) + tuple(ops.term(I, x) for x in a), S(I))
        return f
    E['os.path.relpath'], E['os.path.abspath'] = path_from('relpath'), path_from('abspath')
    for n in ('realpath', 'expanduser'):
        # depend on the working directory
        E['os.path.' + n] = (lambda n: lambda I, a, k: Sym(('ext', 'os.path.' + n) + tuple(ops.term(I, x) for x in a), S(I)))(n)
    E['os.path.isabs'] = lambda I, a, k: os.path.isabs(a[0]) if isinstance(a[0], str) else I.atom(('isabs', ops.term(I, a[0])))
    E['os.path.splitext'] = lambda I, a, k: os.path.splitext(a[0]) if isinstance(a[0], str) else (
        Sym(('ext', 'os.path.splitext', ops.term(I, a[0]), 0), S(I)), Sym(('ext', 'os.path.splitext', ops.term(I, a[0]), 1), S(I)))
    E['os.path.split'] = lambda I, a, k: os.path.split(a[0]) if isinstance(a[0], str) else (
        Sym(('ext', 'os.path.dirname', ops.term(I, a[0])), S(I)), Sym(('ext', 'os.path.basename', ops.term(I, a[0])), S(I)))

    def io(name, result=None):
        def f(I, a, k):
            r = result(I, a) if result else Sym(('io', name, len(I.events)), TS([B['opaque']]))
            I.event('io', name, a, k, r)
            return r
        return f
    for n in ('exists', 'isfile', 'isdir'):
        E['os.path.' + n] = (lambda n: io('os.path.' + n, lambda I, a: I.atom((n, ops.term(I, a[0])))))(n)
    E['os.getcwd'] = lambda I, a, k: Sym(('cwd',), S(I))
    for n in ('builtins.open', 'io.open', 'codecs.open'):
        E[n] = open_model(I)
    for n in ('requests.get', 'requests.post', 'requests.request', 'requests.put', 'requests.head',
              'urllib.request.urlopen', 'urllib.request.Request', 'socket.socket', 'socket.create_connection',
              'http.client.HTTPConnection', 'http.client.HTTPSConnection', 'requests.Session', 'os.listdir', 'os.open',
              'os.system', 'subprocess.run', 'subprocess.Popen', 'os.popen', 'os.remove', 'os.makedirs', 'os.mkdir',
              'shutil.copy', 'tempfile.mkstemp', 'tempfile.NamedTemporaryFile', 'pathlib.Path.read_text'):
        E[n] = io(n)
    E['urllib.parse.urljoin'] = pure('urllib.parse.urljoin', _up.urljoin)
    E['urllib.parse.quote'] = pure('urllib.parse.quote', _up.quote)
    E['urllib.parse.unquote'] = pure('urllib.parse.unquote', _up.unquote)
    E['urllib.parse.urldefrag'] = pure('urllib.parse.urldefrag', lambda u: tuple(_up.urldefrag(u)))

    SIX = ('scheme', 'netloc', 'path', 'params', 'query', 'fragment')
    FIVE = ('scheme', 'netloc', 'path', 'query', 'fragment')

    def url_parts(I, names, vals, whole=None):
        """the named tuple urlparse and urlsplit answer with"""
        o = Obj(B['tuple'], I.new_id(), payload=tuple(vals))
        for n, v in zip(names, vals):
            o.attrs[n] = v
        o.attrs['_fields'] = tuple(names)
        o.attrs['hostname'] = Sym(('url', 'hostname', ops.term(I, whole if whole is not None else o.attrs['netloc'])), S(I))

        def replace(I, a, k):
            for n in k:
                if n not in names:
                    I.raise_('ValueError', f'unexpected field name {n}')
            return url_parts(I, names, [k.get(n, v) for n, v in zip(names, vals)], whole if 'netloc' not in k else None)
        o.attrs['_replace'] = Native('_replace', replace)
        o.attrs['_asdict'] = Native('_asdict', lambda I, a, k: I.new_dict(list(zip(names, vals))))
        o.attrs['geturl'] = Native('geturl', lambda I, a, k: joined(I, tuple(vals)))
        return o

    def parser(names, native, kind):
        def parse(I, a, k):
            x = ops.resolve(I, a[0])
            if isinstance(x, str):
                vals = tuple(native(x))
            else:
                vals = tuple(Sym(('url', n if n != 'path' else kind, ops.term(I, x)), S(I)) for n in names)
            return url_parts(I, names, vals, x)
        return parse
    E['urllib.parse.urlparse'] = parser(SIX, _up.urlparse, 'path')
    E['urllib.parse.urlsplit'] = parser(FIVE, _up.urlsplit, 'splitpath')

    def joined(I, xs):
        if all(isinstance(x, str) for x in xs):
            return (_up.urlunparse if len(xs) == 6 else _up.urlunsplit)(xs)
        return Sym(('urlunparse',) + tuple(ops.term(I, x) for x in xs), S(I))

    def unjoin(names):
        def urlunparse(I, a, k):
            xs = tuple(I.to_list(a[0]))
            if len(xs) != len(names):
                I.raise_('ValueError', 'not the number of parts of a URL')
            return joined(I, xs)
        return urlunparse
    E['urllib.parse.urlunparse'] = unjoin(SIX)
    E['urllib.parse.urlunsplit'] = unjoin(FIVE)

    def parts_class(names):
        def make(I, a, k):
            vals = list(a) + [k[n] for n in names[len(a):] if n in k]
            if len(vals) != len(names):
                I.raise_('TypeError', 'missing parts of a URL')
            return url_parts(I, names, [ops.resolve(I, v) for v in vals])
        return make
    E['urllib.parse.ParseResult'] = parts_class(SIX)
    E['urllib.parse.SplitResult'] = parts_class(FIVE)

    def parse_qs(I, a, k):
        q = ops.resolve(I, a[0])
        if isinstance(q, str):
            return I.new_dict([(n, I.new_list(v)) for n, v in _up.parse_qs(q, **{
                kk: v for kk, v in k.items() if isinstance(v, bool)}).items()])
        if isinstance(q, Sym) and I.types(q).inc is not None and ops.is_none(I, q):
            I.raise_('TypeError', 'query string must be str')
        t = ops.term(I, q)
        blank = bool(k.get('keep_blank_values', a[1] if len(a) > 1 else False))
        kb = 'blank' if blank else 'noblank'

        def val(I, kt, key):
            if isinstance(q, Sym) and q.term[0] == 'v' and ('qs', q.term) in I.hooks:
                return I.hooks[('qs', q.term)](I, key, blank)
            ops.at_least(I, ('qs', kb, t, kt), 1)
            return AColl(('qs', kb, t, kt), I.new_id(), lambda I, i: Sym(('qsval', t, kt, i), S(I)), minlen=1)
        return AbsMap(('parse_qs', kb, t), I.new_id(), val)
    E['urllib.parse.parse_qs'] = parse_qs

    def parse_qsl(I, a, k):
        I.unmodelled.append(('parse_qsl', I.where_repo()))
        return AColl(('parse_qsl', ops.term(I, a[0])), I.new_id(),
                     lambda I, i: (Sym(('qk', i), S(I)), Sym(('qv', i), S(I))))
    E['urllib.parse.parse_qsl'] = parse_qsl

    E['html.escape'] = lambda I, a, k: Sym(('html.escape', ops.term(I, a[0])), S(I))
    E['xml.sax.saxutils.escape'] = lambda I, a, k: Sym(('xml.escape', ops.term(I, a[0])), S(I))
    E['base64.b64encode'] = lambda I, a, k: Sym(('b64', ops.term(I, a[0])), TS([B['bytes']]))

    # ------------------------------------------------------------ string
    import string as _s
    for n in ('ascii_letters', 'digits', 'ascii_lowercase', 'ascii_uppercase', 'whitespace', 'punctuation'):
        V['string.' + n] = getattr(_s, n)

    tc = Cls('Template', [B['object']], builtin=True)
    V['string.Template'] = tc

    def t_init(I, a, k):
        I.setd(a[0].attrs, 'template', a[1])
    tc.attrs['__init__'] = Native('Template.__init__', t_init)

    def subst(safe):
        def f(I, a, k):
            o = a[0]
            vals = {}
            if len(a) > 1:
                for kk, v in ops.dict_items(I, a[1]):
                    vals[kk if isinstance(kk, str) else repr(kk)] = v
            vals.update(k)
            t = ops.resolve(I, o.attrs['template'])
            if isinstance(t, (str, Cat)):
                return subst_parts(I, t, vals, safe)
            if isinstance(t, bytes) or (isinstance(t, XBytes) and t.kind is bytes):
                I.raise_('TypeError', 'cannot use a string pattern on a bytes-like object')
            if isinstance(t, XBytes):
                return XBytes(subst_tree(I, t.tree, vals, safe), str, t.opts)
            return Sym(('substitute', ops.term(I, t)) + tuple((n, ops.term(I, v)) for n, v in sorted(vals.items())), S(I))
        return f
    tc.attrs['safe_substitute'] = Native('safe_substitute', subst(True))
    tc.attrs['substitute'] = Native('substitute', subst(False))

    def cap_words(I, a, k):
        return Sym(('capwords', ops.term(I, a[0])), S(I))
    E['string.capwords'] = cap_words

    # ------------------------------------------------------------ cgi / email header parsing
    def parse_header(I, a, k):
        x = ops.resolve(I, a[0])
        if isinstance(x, Sym) and I.types(x).inc is not None and ops.is_none(I, x):
            I.raise_('AttributeError', "'NoneType' object has no attribute")
        t = ops.term(I, x)
        if isinstance(x, str):
            import cgi
            v, p = cgi.parse_header(x)
            return (v, I.new_dict(list(p.items())))
        if isinstance(x, Cat):
            r = header_cat(I, x)
            if r is not None:
                return r
        return (Sym(('hdr', t), S(I)), AbsMap(('hdrparams', t), I.new_id(),
                                             lambda I, kt, key: Sym(('hdrparam', t, kt), S(I))))
    E['cgi.parse_header'] = parse_header

    # ------------------------------------------------------------ argparse etc.
    for n in ('argparse.ArgumentParser', 'argparse.FileType'):
        E[n] = lambda I, a, k: Sym(('cli',), TS([B['opaque']]))

    # ------------------------------------------------------------ io objects
    def bytesio(I, a, k):
        o = Obj(I.as_class(Extern('io.BytesIO')), I.new_id())
        data = a[0] if a else b''
        o.attrs['_data'] = data
        o.attrs['read'] = Native('read', lambda I, aa, kk: data)
        o.attrs['getvalue'] = o.attrs['read']
        return o
    E['io.BytesIO'] = E['io.StringIO'] = bytesio
    V['io.BytesIO'] = Extern('io.BytesIO')


def header_cat(I, x):
    """main; name="value"; ...  with symbolic values: the values are assumed to hold no quotes or semicolons."""
    text = ''
    syms = []
    for p in x.parts:
        if isinstance(p, str):
            if '\x00' in p:
                return None
            text += p
        else:
            text += f'\x00{len(syms)}\x00'
            syms.append(p)
    import cgi
    v, params = cgi.parse_header(text)

    def back(s):
        out = []
        for i, b in enumerate(s.split('\x00')):
            out.append(syms[int(b)] if i % 2 else b)
        return ops.norm_cat(I, out)
    return (back(v), I.new_dict([(k, back(p)) for k, p in params.items()]))


def subst_parts(I, t, vals, safe):
    parts = t.parts if isinstance(t, Cat) else (t,)
    out = []
    for p in parts:
        if isinstance(p, str):
            pos = 0
            for m in _re.finditer(r'\$(?:(\$)|([A-Za-z_]\w*)|\{([A-Za-z_]\w*)\}|)', p):
                out.append(p[pos:m.start()])
                pos = m.end()
                n = m.group(2) or m.group(3)
                if m.group(1):
                    out.append('$')
                elif n is None:
                    if not safe:
                        I.raise_('ValueError', 'Invalid placeholder in string')
                    out.append(m.group(0))
                elif n in vals:
                    out.append(ops.str_(I, vals[n]))
                elif safe:
                    out.append(m.group(0))
                else:
                    I.raise_('KeyError', n)
            out.append(p[pos:])
        else:
            out.append(Sym(('substitute', p.term) + tuple((n, ops.term(I, v)) for n, v in sorted(vals.items())), S(I)))
    return ops.norm_cat(I, out)


def subst_tree(I, t, vals, safe):
    if isinstance(t, tuple) and t and t[0] == 'el':
        _, kind, tag, attrs, text, children, tail, amap, nsm = t
        f = lambda v: subst_parts(I, v, vals, safe) if isinstance(v, (str, Cat)) else v
        return ('el', kind, tag, tuple((k, f(v)) for k, v in attrs), f(text), tuple(
            subst_tree(I, c, vals, safe) for c in children), f(tail), amap, nsm)
    return t


def open_model(I):
    def f(I, a, k):
        o = Obj(I.as_class(Extern('io.File')), I.new_id())
        h = I.hooks.get('open.content')
        data = h(I, a[:1], {}) if h else Sym(('file', ops.term(I, a[0]), len(I.events)), TS([I.B['bytes']]))
        o.attrs['read'] = Native('read', lambda I, aa, kk: data)
        o.attrs['write'] = Native('write', lambda I, aa, kk: None)
        o.attrs['close'] = Native('close', lambda I, aa, kk: None)
        I.event('io', 'open', a, k, o)
        return o
    c = I.as_class(Extern('io.File'))
    c.attrs['__enter__'] = Native('enter', lambda I, a, k: a[0])
    c.attrs['__exit__'] = Native('exit', lambda I, a, k: None)
    return f


def copy_value(I, v, deep, memo):
    v = ops.resolve(I, v)
    if isinstance(v, NATIVE) or isinstance(v, (Sym, Cat, XBytes, Cls, Func, Native, Extern, Module, Regex)):
        return v
    if id(v) in memo:
        return memo[id(v)]

    def sub(x):
        return copy_value(I, x, True, memo) if deep else x
    if isinstance(v, tuple):
        return tuple(sub(x) for x in v)
    if isinstance(v, AList):
        r = I.new_list([])
        memo[id(v)] = r
        r.items[:] = [sub(x) for x in v.items]
        return r
    if isinstance(v, ADict):
        r = I.new_dict([])
        memo[id(v)] = r
        for k, x in v.d.values():
            ops.dict_set(I, r, sub(k), sub(x))
        return r
    if isinstance(v, ASet):
        return I.new_set([k for k in (e for e in v.d.values())], v.frozen)
    if isinstance(v, XElem):
        return xmlmodel.copy_tree(I, v)
    if isinstance(v, Obj):
        n = '__deepcopy__' if deep else '__copy__'
        f, own = v.cls.lookup(n)
        if f is not None:
            return I.call(Bound(v, f), [I.new_dict([])] if deep else [], {})
        if '__members_list__' in v.cls.attrs:
            return v
        o = Obj(v.cls, I.new_id(), tag=v.tag)
        memo[id(v)] = o
        for k, x in v.attrs.items():
            o.attrs[k] = sub(x)
        if v.payload is not None:
            o.payload = copy_value(I, v.payload, deep, memo)
        return o
    return v
