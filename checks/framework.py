"""Driver: abstract traces of a probe together with the analysed program, obligations, reports, evidence."""
import ast
import collections
import importlib
import json
import multiprocessing
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.setrecursionlimit(40000)

from pyabs import interp as _interp                                     # noqa: E402
from pyabs import methods, models, ops, pycode, remodel, xmlmodel               # noqa: E402
from pyabs.facts import ZERO                                            # noqa: E402
from pyabs.interp import Interp                                         # noqa: E402
from pyabs.values import (AbsMap, AbsRaise, AColl, ADict, AList, Analysis, ASet, Bound, Cat, Cls, Cut, Extern, Func,  # noqa: E402
                          Native, Obj, Sym, TS, XBytes, XElem, show)

REPO = os.environ.get('VERIF_REPO', '/repo')


class Anchor(Exception):
    """The construct a rule is anchored to is not there any more."""


class Scenario:
    def __init__(self, probe, func, args=(), label=None, limit=None, max_paths=40000, rule=None, setup=None,
                 thorough=False):
        self.probe, self.func, self.args = probe, func, tuple(args)
        self.label = label or func + (repr(tuple(args)) if args else '')
        self.limit = limit
        self.max_paths = max_paths
        self.rule = rule
        self.setup = setup
        self.thorough = thorough


class Query:
    """A rule decided on the syntax trees: fn(repo) yields (ok, file:line in function, obligation, details)."""
    probe = func = setup = None
    thorough = False
    args = ()

    def __init__(self, label, fn, rule=None, *args):
        self.label, self.fn, self.rule, self.args = label, fn, rule, args

    def run(self):
        res = Result(self.label)
        for ok, where, obligation, details in self.fn(REPO, *self.args):
            res.obligations += 1
            path, _, func = where.partition(' in ')
            res.covered.add((path.rpartition(':')[0], func))
            if ok:
                res.discharged += 1
                if res.sample is None:
                    res.sample = {'scenario': self.label, 'construct': where, 'obligations': [obligation]}
                continue
            res.violations[(self.label, obligation, func)] = {
                'scenario': self.label, 'rule': self.rule or '', 'obligation': obligation, 'values': [str(d) for d in details],
                'construct': where, 'probe': '', 'path_conditions': [], 'call_path': [], 'notes': [], 'count': 1}
        return res


class Result:
    def __init__(self, label):
        self.label = label
        self.traces = 0
        self.cuts = collections.Counter()
        self.undecided = collections.Counter()
        self.obligations = 0
        self.discharged = 0
        self.violations = {}        # key -> dict
        self.covered = set()
        self.lines = set()
        self.error = None
        self.sample = None
        self.known = []


def plain(v, depth=0):
    """Readable rendering of an abstract value."""
    if depth > 4:
        return '...'
    if isinstance(v, Obj):
        if v.cls.name and 'args' in v.attrs:
            return f'{v.cls.name}({", ".join(plain(a, depth + 1) for a in v.attrs["args"])})'
        return repr(v)
    if isinstance(v, tuple):
        return '(' + ', '.join(plain(x, depth + 1) for x in v) + ')'
    if isinstance(v, AList):
        return '[' + ', '.join(plain(x, depth + 1) for x in v.items) + ']'
    if isinstance(v, ADict):
        return '{' + ', '.join(f'{plain(k, depth + 1)}: {plain(x, depth + 1)}' for k, x in v.d.values()) + '}'
    if isinstance(v, XElem):
        kids = ''.join(plain(c, depth + 1) for c in v.children)
        at = ''.join(f' {plain(k)}={plain(x)}' for k, x in v.attrib.d.values()) if isinstance(v.attrib, ADict) else ''
        return f'<{plain(v.tag)}{at}>{plain(v.text) if v.text is not None else ""}{kids}</>'
    return repr(v)


class Runner:
    def __init__(self, pid):
        self.pid = pid
        self.known = load_known(pid)
        self.I = Interp(REPO)
        self.install(self.I)
        self.probes = {}
        self.prepared = {}

    # ------------------------------------------------------------------ vocabulary of the probes
    def install(self, I):
        B = I.B
        R = self

        def nat(name):
            def deco(fn):
                R.natives[name] = Native(name, fn)
                return fn
            return deco
        self.natives = {}

        @nat('sym')
        def sym(I, a, k):
            types = []
            for t in a[1:]:
                types.append(B['NoneType'] if t is None else I.as_class(t))
            s = Sym(('v', a[0]), TS(types) if types else None)
            if types and all(t.name in ('int', 'bool') for t in types):
                I.facts.zone.ints.add(s.term)
            return s

        @nat('name')
        def name_(I, a, k):
            """An unknown XML name (NCName): non-empty, no braces, colons or blanks."""
            s = Sym(('v', a[0]), TS([B['str']]))
            for c in '{}:/ \t\n\r$<>&"\'#|%':
                I.facts.truth[('contains', s.term, ('c', c))] = False
            lt = ('len', s.term)
            I.facts.zone.ints.add(lt)
            I.facts.zone.assume(lt, ZERO, 0, {'>'})
            for other in I.data.setdefault('__names', []):
                pass
            I.data['__names'].append(s)
            return s

        @nat('nonempty')
        def nonempty(I, a, k):
            """An unknown text that is not empty."""
            s = Sym(('v', a[0]), TS([B['str']]))
            lt = ('len', s.term)
            I.facts.zone.ints.add(lt)
            I.facts.zone.assume(lt, ZERO, 0, {'>'})
            return s

        @nat('distinct')
        def distinct(I, a, k):
            for i, x in enumerate(a):
                for y in a[i + 1:]:
                    if isinstance(x, Sym) and isinstance(y, Sym):
                        I.facts.truth[('eq',) + tuple(sorted((x.term, y.term), key=repr))] = False
                    elif isinstance(x, Sym) and isinstance(y, (str, bytes)):
                        I.facts.notconst.setdefault(x.term, set()).add(y)
                    elif isinstance(y, Sym) and isinstance(x, (str, bytes)):
                        I.facts.notconst.setdefault(y.term, set()).add(x)
            return None

        @nat('anyof')
        def anyof(I, a, k):
            i = I.choose(len(a), ['case ' + plain(x) for x in a])
            return a[i]

        @nat('flip')
        def flip(I, a, k):
            return not I.choose(2, [f'{a[0]}', f'not {a[0]}'])

        @nat('check')
        def check(I, a, k):
            R.obligation(I, I.truth(a[0]), a[1] if len(a) > 1 else 'obligation', a[2:])

        @nat('fail')
        def fail(I, a, k):
            R.obligation(I, False, a[0], a[1:])

        @nat('assume')
        def assume(I, a, k):
            if not I.truth(a[0]):
                raise Cut('assumption', silent=True)

        @nat('stop')
        def stop(I, a, k):
            raise Cut('outside the property', silent=not any(not r[0] for r in I.data.get('__recorded') or ()))

        @nat('note')
        def note(I, a, k):
            I.data.setdefault('notes', []).append(', '.join(plain(x) for x in a))

        @nat('full_match')
        def full_match(I, a, k):
            return remodel.match(I, a[0], a[1], 0, 'fullmatch') is not None

        @nat('ws')
        def ws(I, a, k):
            """The value after XSD white space handling."""
            s, kind = a
            if kind == 'replace' or kind == 'collapse':
                s = methods.ws_apply(I, s, 'map', frozenset('\t\n\r'))
            if kind == 'collapse':
                s = methods.ws_apply(I, s, 'mapruns', frozenset(' '))
                s = methods.ws_apply(I, s, 'strip', frozenset(' '))
            return s

        @nat('identical')
        def identical(I, a, k):
            """The same value by provenance: same term, constant or object."""
            return R.same(I, a[0], a[1])

        @nat('events')
        def events(I, a, k):
            out = []
            for e in I.events:
                if (not a or e.kind == a[0]) and (len(a) < 2 or e.name == a[1]):
                    o = Obj(I.as_class(Extern('probe.Event')), I.new_id())
                    o.attrs.update(kind=e.kind, name=e.name if isinstance(e.name, str) else show(e.name),
                                   args=tuple(e.args), kwargs=I.new_dict(list(e.kwargs.items())), result=e.result, n=e.n)
                    out.append(o)
            return I.new_list(out)

        @nat('emit')
        def emit(I, a, k):
            I.event('probe', a[0], a[1:], k)

        @nat('opaque')
        def opaque(I, a, k):
            return Sym(('v', a[0]), TS([B['opaque']]))

        @nat('anything')
        def anything(I, a, k):
            """An unknown value of any type outside the ones listed."""
            exc = [B['NoneType'] if t is None else I.as_class(t) for t in a[1:]]
            return Sym(('v', a[0]), TS(None, exc))

        @nat('listof')
        def listof(I, a, k):
            """An unknown list (length up to the k-limit) whose items come from fn(i)."""
            fn = a[1]
            return AColl(('v', a[0]), I.new_id(), lambda I, i: I.call(fn, [i], {}))

        @nat('mapping')
        def mapping(I, a, k):
            """An unknown mapping with str values."""
            t = ('v', a[0])

            def val(I, kt, key):
                if len(a) > 1:
                    return I.call(a[1], [key], {})
                return Sym(('item', t, kt), TS([B['str']]))
            return AbsMap(t, I.new_id(), val)

        @nat('has_key')
        def has_key(I, a, k):
            return ops.has_key(I, a[0], a[1]) if isinstance(a[0], AbsMap) else ops.contains(I, a[0], a[1])

        @nat('type_name')
        def type_name(I, a, k):
            c = ops.type_of(I, a[0])
            return c.name if isinstance(c, Cls) else Sym(('attr', c.term, '__name__'), TS([B['str']]))

        @nat('is_type')
        def is_type(I, a, k):
            return ops.isinstance_(I, a[0], tuple(a[1:]))

        @nat('int_between')
        def int_between(I, a, k):
            s = Sym(('v', a[0]), TS([B['int']]))
            I.facts.zone.ints.add(s.term)
            if a[1] is not None:
                I.facts.zone.assume(s.term, ZERO, a[1], {'>', '='})
            if a[2] is not None:
                I.facts.zone.assume(s.term, ZERO, a[2], {'<', '='})
            return s

        @nat('wild')
        def wild(I, a, k):
            """An unknown text that may hold characters no XML document can hold."""
            s = Sym(('v', a[0]), TS([B['str']]))
            I.data['wild'] = (I.data.get('wild') or set()) | {s.term}
            return s

        @nat('text_of')
        def text_of(I, a, k):
            return ops.str_(I, a[0])

        @nat('mentions')
        def mentions(I, a, k):
            """Whether a value was computed from something of that kind."""
            stack = [ops.term(I, a[0])]
            while stack:
                t = stack.pop()
                if isinstance(t, tuple):
                    if t and t[0] == a[1]:
                        return True
                    stack.extend(t)
            return False

        @nat('anchor')
        def anchor(I, a, k):
            """The declaration the next obligations are about."""
            c = a[0]
            field = a[1] if len(a) > 1 else None
            for b in (c.mro if isinstance(c, Cls) else ()):
                m = I.modules.get(b.module)
                if b.node is None or m is None or not m.path:
                    continue
                line = b.node.lineno if field is None else next(
                    (x.lineno for x in b.node.body if isinstance(x, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == field for t in x.targets)), None)
                if line is not None:
                    I.last_repo = (m.path, line, b.name if field is None else f'{b.name}.{field}')
                    return

        @nat('contains_term')
        def contains_term(I, a, k):
            """Whether a value was computed from that value."""
            stack, part = [ops.term(I, a[0])], ops.term(I, a[1])
            while stack:
                t = stack.pop()
                if t == part:
                    return True
                if isinstance(t, tuple):
                    stack.extend(t)
            return False

        @nat('bounded')
        def bounded(I, a, k):
            """Recursion on the inputs of this trace must end: they are small and finite."""
            I.setd(I.data, 'bounded', True)

        @nat('unmodelled')
        def unmodelled(I, a, k):
            I.unmodelled.append((a[0], I.where_repo()))

        @nat('hook')
        def hook(I, a, k):
            """Behaviour of an external function on this trace."""
            fn = a[1]
            I.setd(I.hooks, a[0], (lambda I, aa, kk: I.call(fn, aa, kk)) if fn is not None else None)

        @nat('provide')
        def provide(I, a, k):
            """What a name of a library stands for on this trace."""
            I.setd(I.extern_values, a[0], a[1])

        @nat('globals_set')
        def globals_set(I, a, k):
            """Binds a name of a module on this trace."""
            I.setd(I.modules[a[0]].vars, a[1], a[2])

        @nat('func_hook')
        def func_hook(I, a, k):
            fn = a[1]
            mod, _, qual = a[0].partition(':')
            R.find_function(mod, qual)
            I.setd(I.func_hooks, a[0], lambda I, f, aa, kk: I.call(fn, aa, kk))

        @nat('xml_hooks')
        def xml_hooks(I, a, k):
            for n, fn in k.items():
                I.setd(I.hooks, 'xml.' + n, (lambda fn: lambda I, *aa: I.call(fn, list(aa), {}))(fn))

        @nat('snapshot')
        def snapshot(I, a, k):
            e = a[0]
            return XBytes(xmlmodel.snapshot(I, xmlmodel.root_of(I, e)), bytes)

        @nat('same_tree')
        def same_tree(I, a, k):
            x, y = (v.tree if isinstance(v, XBytes) else xmlmodel.snapshot(I, v) for v in a[:2])
            return R.same_snap(I, *(xmlmodel.snapshot(I, xmlmodel.rebuild(I, t)) for t in (x, y)))

        @nat('tree_of')
        def tree_of(I, a, k):
            x = ops.resolve(I, a[0])
            if isinstance(x, XBytes):
                return xmlmodel.rebuild(I, x.tree)
            return None

        @nat('cells')
        def cells(I, a, k):
            """Identities of every mutable cell reachable from a value (not through classes or modules)."""
            return R.reach(I, a[0])

        @nat('shared')
        def shared(I, a, k):
            ra, rb = R.reach_ids(I, a[0]), R.reach_ids(I, a[1])
            allowed = set()
            for x in a[2:]:
                allowed |= set(R.reach_ids(I, x))
            both = [ra[i] for i in ra if i in rb and i not in allowed]
            return I.new_list([plain(x) for x in both])

        @nat('freeze')
        def freeze(I, a, k):
            """A structural picture of everything reachable from the values, for later comparison."""
            return tuple(R.picture(I, x, {}) for x in a)

        @nat('plain')
        def plain_(I, a, k):
            return plain(a[0])

        @nat('nsmap_of')
        def nsmap_of(I, a, k):
            return xmlmodel.full_nsmap(I, a[0])

        @nat('numeral')
        def numeral(I, a, k):
            """Fixes sign and presence of a fraction of an unknown number; returns (integer digits, fraction digits)."""
            v, neg, frac = a[:3]
            t = v.term
            if ops.all_in(I.types(v), ('str',)):
                t = ('int' if len(a) > 3 and a[3] else 'num', t)
                if t[0] == 'int':
                    I.facts.zone.ints.add(t)
            shapes = dict(I.data.get('numerals') or {})
            shapes[t] = (bool(neg), bool(frac))
            I.data['numerals'] = shapes
            if neg:
                I.facts.zone.assume(t, ZERO, 0, {'<'})
            else:
                I.facts.zone.assume(t, ZERO, 0, {'>', '='})
            out = []
            for part in ('int', 'frac') if frac else ('int',):
                lt = ('len', ('numdigits', t, part))
                I.facts.zone.ints.add(lt)
                I.facts.zone.assume(lt, ZERO, 0, {'>'})
                out.append(Sym(lt, TS([B['int']])))
            return (out[0], out[1] if frac else 0)

        @nat('program')
        def program(I, a, k):
            """Generated program text with every unknown text in it replaced by a placeholder."""
            return pycode.Text(I, ops.resolve(I, a[0])).source

        @nat('load_code')
        def load_code(I, a, k):
            """Loads generated program text as a module; texts of documents must stay data."""
            I.data['__origin'] = I.last_repo  # what comes later is about what this made
            try:
                m = pycode.Text(I, ops.resolve(I, a[0])).load(a[1] if len(a) > 1 else 'generated')
            except pycode.Leak as e:
                R.obligation(I, False, 'the texts of documents stay data in generated code', (e.why, e.value, e.context))
                raise Cut('no program')
            R.obligation(I, True, 'the texts of documents stay data in generated code')
            return m

        @nat('known')
        def known(I, a, k):
            """Whether a value is a constant on this trace."""
            return not isinstance(ops.resolve(I, a[0]), (Sym, Cat))

        @nat('judge_code')
        def judge_code(I, a, k):
            """Generated program text: texts of documents must stay data.  The values of the literals made of them."""
            I.data['__origin'] = I.last_repo
            try:
                text = pycode.Text(I, ops.resolve(I, a[0]))
                text.judge()
            except pycode.Leak as e:
                R.obligation(I, False, 'the texts of documents stay data in generated code', (e.why, e.value, e.context))
                raise Cut('no program')
            R.obligation(I, True, 'the texts of documents stay data in generated code')
            try:
                return I.new_list(text.literals())
            except pycode.Leak as e:
                return None

        @nat('decided')
        def decided(I, a, k):
            """A three-valued look at a fact without splitting the trace."""
            return None

    # ------------------------------------------------------------------
    def same(self, I, x, y):
        x, y = ops.resolve(I, ops.native_of(x)), ops.resolve(I, ops.native_of(y))
        if x is y:
            return True
        if isinstance(x, (Obj, AList, ADict, ASet, XElem, Cls, Func)) or isinstance(y, (Obj, AList, ADict, ASet, XElem, Cls, Func)):
            return False
        if type(x) is not type(y) and not (isinstance(x, (Sym, Cat, XBytes)) and isinstance(y, (Sym, Cat, XBytes))):
            if isinstance(x, Sym) and isinstance(y, (int, float)) or isinstance(y, Sym) and isinstance(x, (int, float)):
                return bool(ops.truth(I, ops.eq(I, x, y)))
            return False
        if isinstance(x, Sym) and isinstance(y, Sym) and x.term != y.term:
            t = I.facts.truth.get(('eq',) + tuple(sorted((x.term, y.term), key=repr)))
            if t is True:
                return True
            tx, ty = I.types(x), I.types(y)
            if ops.all_in(tx, ops.NUMERIC) and ops.all_in(ty, ops.NUMERIC):
                return ops.rel_possible(I, x.term, y.term, 0) == {'='}
        return ops.term(I, x) == ops.term(I, y)

    def same_snap(self, I, x, y):
        return xmlmodel.bare(x) == xmlmodel.bare(y)

    def reach_ids(self, I, v):
        out = {}
        stack = [v]
        while stack:
            x = stack.pop()
            if isinstance(x, (Obj, AList, ADict, ASet, XElem)):
                if x.ident in out or self.declaration(x):
                    continue
                out[x.ident] = x
                if isinstance(x, Obj):
                    if '__members_list__' in x.cls.attrs:
                        del out[x.ident]
                        continue
                    stack += list(x.attrs.values())
                    if x.payload is not None:
                        stack.append(x.payload)
                elif isinstance(x, AList):
                    stack += x.items
                elif isinstance(x, (ADict,)):
                    stack += [kv[1] for kv in x.d.values()]
                elif isinstance(x, XElem):
                    stack += x.children
            elif isinstance(x, tuple):
                stack += list(x)
        return out

    @staticmethod
    def declaration(x):
        """Field declarations and simple types belong to the class, not to its instances."""
        if not isinstance(x, Obj):
            return False
        names = {c.name for c in x.cls.mro if c.module == 'soapfish.xsd'} if hasattr(x.cls, 'module') else {c.name for c in x.cls.mro}
        return bool(names & {'Element', 'SimpleType', 'Schema'}) and 'ComplexType' not in names

    def reach(self, I, v):
        return I.new_list([plain(x) for x in self.reach_ids(I, v).values()])

    def picture(self, I, v, memo):
        v = ops.resolve(I, v)
        if isinstance(v, (Obj, AList, ADict, ASet, XElem, Cls)):
            key = v.ident if not isinstance(v, Cls) else ('c', v.ident)
            if key in memo:
                return ('ref', memo[key])
            memo[key] = len(memo)
            if self.declaration(v):
                return ('declaration', v.cls.name, tuple((k, ops.term(I, x)) for k, x in v.attrs.items()
                                                         if not isinstance(x, (Obj, Cls)) and k not in ('_type', '_passed_type')))
            if isinstance(v, Obj):
                return ('obj', v.cls.name, tuple((k, self.picture(I, x, memo)) for k, x in v.attrs.items()),
                        self.picture(I, v.payload, memo) if v.payload is not None else None)
            if isinstance(v, AList):
                return ('list',) + tuple(self.picture(I, x, memo) for x in v.items)
            if isinstance(v, ADict):
                return ('dict',) + tuple((ops.keyterm(I, k), self.picture(I, x, memo)) for k, x in v.d.values())
            if isinstance(v, ASet):
                return ('set',) + tuple(v.d)
            if isinstance(v, XElem):
                return ('xml', xmlmodel.snapshot(I, v))
            if isinstance(v, Cls):
                if v.builtin:
                    return ('cls', v.name)
                return ('cls', v.name, tuple((k, self.picture(I, x, memo)) for k, x in v.attrs.items()
                                             if not isinstance(x, (Func, Native))))
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.picture(I, x, memo) for x in v)
        return ops.term(I, v)

    def find_function(self, mod, qual):
        m = self.I.modules.get(mod)
        if m is None:
            try:
                m = self.I.import_module(mod)
            except AbsRaise:
                raise Anchor(f'module {mod} does not load')
        x = m.vars.get(qual.split('.')[0])
        for p in qual.split('.')[1:]:
            x = x.lookup(p)[0] if isinstance(x, Cls) else None
        if x is None:
            raise Anchor(f'{mod}:{qual} not found')
        return x

    def obligation(self, I, ok, msg, extra=()):
        res = self.res
        if I.data.get('__recorded') is None:
            I.data['__recorded'] = []
        I.data['__recorded'].append((bool(ok), msg if isinstance(msg, str) else plain(msg), tuple(plain(x) for x in extra),
                                     self.site(I), I.where))

    def site(self, I):
        return I.data.get('__origin') or I.last_repo

    # ------------------------------------------------------------------ running
    def load_probe(self, name):
        if name in self.probes:
            return self.probes[name]
        path = os.path.join(VERIF, 'probes', name + '.py')
        with open(path, encoding='utf-8') as f:
            src = f.read()
        I = self.I
        import ast
        from pyabs.interp import Env, Frame
        from pyabs.values import Module
        tree = ast.parse(src, path)
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and (n.module or '').startswith('probe.'):
                self.load_probe(n.module[len('probe.'):])
        m = Module('probe.' + name, f'<probe {name}>', tree)
        m.vars.update(self.natives)
        m.vars['__name__'] = m.name
        I.modules[m.name] = m
        I.frames.append(Frame('<module>', m.path, 0))
        try:
            I.block(m.tree.body, Env(m, vars=m.vars))
        except AbsRaise as e:
            raise Anchor(f'the code the probe {name} refers to cannot be loaded: {plain(e.exc)} at {e.where}')
        finally:
            I.frames.pop()
        self.probes[name] = m
        return m

    def preload(self):
        """Modules the program imports only when needed are loaded once, not on every trace."""
        base = os.path.join(REPO, self.I.package)
        for f in sorted(os.listdir(base)):
            if f.endswith('.py') and not f.startswith('__'):
                try:
                    self.I.import_module(f'{self.I.package}.{f[:-3]}')
                except AbsRaise:
                    self.I.modules.pop(f'{self.I.package}.{f[:-3]}', None)

    def prepare(self, m, func, *args):
        """Objects built once and shared by all traces of an instance (a copy per trace is not needed: changes are undone)."""
        key = (m.name, func, args)
        if key not in self.prepared:
            I = self.I
            if I.load_counter is None:
                I.load_counter = I.counter
            I.counter = I.load_counter
            I.prefix, I.choices, I.events, I.unmodelled, I.data, I.steps = [], [], [], [], {}, 0
            I.frames, I.exc_stack, I.journal, I.journaling, I.facts, I.calls = [], [], [], False, _interp.Facts(), []
            I.last_repo = None
            kept = [(d, dict(d)) for d in (I.hooks, I.func_hooks, I.extern_values)]
            try:
                v = I.call(m.vars[func], list(args), {})
            finally:
                for d, old in kept:
                    d.clear()
                    d.update(old)
            if I.choices or I.unmodelled:
                raise Analysis(f'setup {func}{args} is not determined: {I.facts.log[:3]} {I.unmodelled[:3]}')
            I.load_counter = I.counter
            self.prepared[key] = v
        return self.prepared[key]

    def run(self, sc):
        start = time.time()
        if isinstance(sc, Query):
            return sc.run()
        res = self.res = Result(sc.label)
        I = self.I
        m = self.load_probe(sc.probe)
        f = m.vars.get(sc.func)
        if f is None:
            raise Anchor(f'probe function {sc.func} missing')
        I.covered = set()
        I.covered_lines = set()
        given = []
        if sc.setup:
            try:
                given = [self.prepare(m, *sc.setup)]
            except AbsRaise as e:
                msg = f'{plain(e.exc)[:200]} while setting up'
                site = I.last_repo or (REPO, 0, '?')
                res.obligations += 1
                res.violations[(sc.label, msg, site[2])] = {
                    'scenario': sc.label, 'rule': sc.rule or '', 'obligation': msg, 'values': [],
                    'construct': f'{site[0]}:{site[1]} in {site[2]}', 'probe': '', 'path_conditions': [], 'call_path': [],
                    'notes': [], 'count': 1}
                return res

        def body():
            I.last_repo = None
            I.calls = []
            return I.call(f, given + list(sc.args), {})
        try:
            for p in I.explore(body, max_paths=sc.max_paths, limit=sc.limit):
                self.judge(sc, p)
                if res.violations and time.time() > start + 60 and any(not is_known(self.known, k) for k in res.violations):
                    break       # one more trace of a failing instance adds nothing
        except Analysis as e:
            res.undecided['analysis: ' + str(e)] += 1
        except RecursionError:
            res.undecided['analysis: recursion'] += 1
        res.covered = {c for c in I.covered if c[0] and not c[0].startswith('<')}
        res.lines = {c for c in I.covered_lines if c[0] and not c[0].startswith('<')}
        return res

    def judge(self, sc, p):
        res = self.res
        res.traces += 1
        rec = p.data.get('__recorded') or []
        if p.kind == 'cut':
            res.cuts[p.cut.why] += 1
            # obligations met before the cut still count
        bad = [r for r in rec if not r[0]]
        res.obligations += len(rec)
        res.discharged += len(rec) - len(bad)
        if p.kind == 'raise':
            res.obligations += 1
            bad.append((False, f'{plain(p.exc)[:200]} escapes', (), self.I.last_repo, p.where))
        for ok, msg, extra, site, where in bad:
            if p.unmodelled:
                res.undecided[f'{msg}: depends on {sorted({u[0] if isinstance(u[0], str) else str(u[0]) for u in p.unmodelled})}'] += 1
                continue
            site = site or (REPO, 0, '?')
            key = (sc.label, msg, site[2])
            if key not in res.violations:
                res.violations[key] = {
                    'scenario': sc.label, 'rule': sc.rule or '', 'obligation': msg, 'values': list(extra),
                    'construct': f'{site[0]}:{site[1]} in {site[2]}',
                    'probe': f'{where[0]}:{where[1]}' if where else '',
                    'path_conditions': p.facts.log[-40:], 'call_path': [f'{c[0]}:{c[1]} {c[2]}' for c in self.I.calls][:60],
                    'notes': p.data.get('notes', []), 'count': 0}
            res.violations[key]['count'] += 1
        if p.unmodelled and not bad and p.data.get('__recorded'):
            pass
        if res.sample is None and rec and not bad and p.kind != 'cut':
            res.sample = {'scenario': sc.label, 'path_conditions': p.facts.log[:12],
                          'obligations': [r[1] for r in rec][:6]}


RUNNER = None
PID = None
DEADLINE = float('inf')


def work(args):
    idx, sc = args
    t = time.time()
    if t > DEADLINE:
        r = Result(sc.label)
        r.error = 'time budget used up'
        r.wall = 0
        return idx, r
    RUNNER.I.deadline = DEADLINE
    try:
        r = RUNNER.run(sc)
    except Anchor as e:
        r = Result(sc.label)
        r.error = 'anchor: ' + str(e)
    except Exception:
        r = Result(sc.label)
        r.error = traceback.format_exc(limit=-8)
    r.wall = time.time() - t
    return idx, r


def big_stack(fn):
    """Deep abstract call chains need a deep host stack."""
    out = {}

    def target():
        try:
            out['r'] = fn()
        except BaseException as e:      # noqa: B902
            out['e'] = e
    threading.stack_size(1 << 29)
    t = threading.Thread(target=target)
    t.start()
    t.join()
    if 'e' in out:
        raise out['e']
    return out['r']


def worker_main(scs, idxs, conn):
    def go():
        for i in idxs:
            conn.send(work((i, scs[i])))
        conn.send(None)
    big_stack(go)


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('finding: '):
                # finding: property=<id> rule=<scenario>|<obligation>|<function> -- text
                head, _, text = line[len('finding: '):].partition(' -- ')
                d = dict(x.split('=', 1) for x in head.split(' ', 1))
                if d.get('property') == pid:
                    out.append((d['rule'].strip(), text))
    return out


def is_known(known, key):
    names = '|'.join(key), '|'.join(key[:2]) + '|*'
    return next((k for k in known if k[0] in names), None)


def main(pid, tier):
    global RUNNER, PID, DEADLINE
    PID = pid
    t0 = time.time()
    DEADLINE = t0 + float(os.environ.get('VERIF_BUDGET', '780'))
    mod = importlib.import_module('checks.' + pid.lower())
    try:
        RUNNER = big_stack(lambda: Runner(pid))
        scs = [s for s in mod.scenarios(tier) if tier == 'thorough' or not s.thorough]
        big_stack(lambda: [RUNNER.load_probe(n) for n in sorted({s.probe for s in scs if s.probe})] and RUNNER.preload())
    except Anchor as e:
        print(f'ANALYSIS-BROKEN property={pid} {e}')
        return 2
    except AbsRaise as e:
        print(f'ANALYSIS-BROKEN property={pid} the program does not load: {plain(e.exc)} at {e.where}')
        return 2
    RUNNER.I.load_counter = RUNNER.I.counter
    n = min(8, max(1, len(scs)), os.cpu_count() or 1)
    results = [None] * len(scs)
    if os.environ.get('VERIF_SERIAL'):
        for i, sc in enumerate(scs):
            results[i] = big_stack(lambda: work((i, sc)))[1]
    else:
        ctx = multiprocessing.get_context('fork')
        # dynamic distribution: one pipe per worker, scenarios handed out in turn
        task_q = ctx.SimpleQueue()
        res_q = ctx.SimpleQueue()
        for i in range(len(scs)):
            task_q.put(i)
        for _ in range(n):
            task_q.put(None)

        def loop():
            def go():
                while True:
                    i = task_q.get()
                    if i is None:
                        break
                    res_q.put(work((i, scs[i])))
            big_stack(go)
        procs = [ctx.Process(target=loop) for _ in range(n)]
        for p in procs:
            p.start()
        for _ in range(len(scs)):
            i, r = res_q.get()
            results[i] = r
        for p in procs:
            p.join()
    return report(pid, tier, mod, scs, results, t0)


def report(pid, tier, mod, scs, results, t0):
    verbose = os.environ.get('VERIF_VERBOSE')
    known = load_known(pid)
    violations, knownhits, errors = [], {}, []
    undecided = collections.Counter()
    cuts = collections.Counter()
    covered, lines = set(), set()
    per = []
    for sc, r in zip(scs, results):
        if r.error:
            errors.append((sc.label, r.error))
        for key, v in r.violations.items():
            hit = is_known(known, key)
            if hit:
                knownhits[hit[0]] = hit[1]
            else:
                violations.append(v)
        undecided.update(r.undecided)
        cuts.update(r.cuts)
        covered |= r.covered
        lines |= r.lines
        per.append({'scenario': r.label, 'traces': r.traces, 'obligations': r.obligations, 'discharged': r.discharged,
                    'wall_s': round(getattr(r, 'wall', 0), 2)})
        if verbose:
            print(f'  {r.label}: traces={r.traces} obligations={r.obligations}/{r.discharged} '
                  f'undecided={dict(r.undecided)} cuts={dict(r.cuts)} {getattr(r, "wall", 0):.1f}s')
    obligations = sum(r.obligations for r in results)
    discharged = sum(r.discharged for r in results)
    empty = [r.label for r in results if r.obligations == 0 and not r.undecided and not r.error]
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': mod.EXPLANATION,
            'rule_instances': len(scs), 'abstract_traces': sum(r.traces for r in results),
            'obligations': obligations, 'discharged': discharged,
            'functions_analysed': len(covered), 'lines_analysed': len(lines),
            'functions': sorted(f'{a}:{b}' for a, b in covered),
            'undecided': dict(undecided), 'instances_without_obligations': empty, 'not_analysed': [e[0] for e in errors], 'bounded_traces': dict(cuts),
            'instances': per,
            'samples': [r.sample for r in results if r.sample][:3],
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'library models in /verif/pyabs (lxml, re, datetime, iso8601, urllib, string) describe those libraries',
            'collections of unknown length are followed up to the k-limit given per instance'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    for k, text in sorted(knownhits.items()):
        print(f'KNOWN-FINDING: property={pid} {text}')
    print(f'{pid}: {len(scs)} rule instances, {ev["coverage"]["abstract_traces"]} abstract traces, '
          f'{discharged}/{obligations} obligations discharged, {len(covered)} functions analysed, '
          f'{sum(undecided.values())} undecided, {ev["wall_s"]}s')
    for u, c in undecided.most_common(20):
        print(f'  UNDECIDED ({c}): {u}')
    if violations:
        os.makedirs(os.path.join(VERIF, 'reports'), exist_ok=True)
        path = os.path.join(VERIF, 'reports', f'{pid}.json')
        with open(path, 'w') as f:
            json.dump(violations, f, indent=1, default=str)
        for v in violations[:12]:
            print(f'  {v["construct"]}: {v["obligation"]}  [{v["scenario"]}; {v["rule"]}]')
            for e in v['values']:
                print(f'      value: {e}')
            print('      when: ' + '; '.join(v['path_conditions'][-8:]))
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    for l, e in errors[:5]:
        print(f'ANALYSIS-ERROR property={pid} {l}: {e}')
    if len(errors) == len(scs):
        return 2
    if errors:
        print(f'  {len(errors)} of {len(scs)} rule instances could not be analysed; nothing is claimed for them')
    if empty:
        print(f'  {len(empty)} rule instances without obligations: {empty[:5]}; nothing is claimed for them')
        if len(empty) == len(scs):
            print(f'ANALYSIS-BROKEN property={pid} no obligation was reached')
            return 2
    return 0
