"""Jinja templates as programs: their syntax trees become Python syntax trees which the interpreter evaluates.

Only the parser of Jinja is used (it reads the template text); nothing of it or of the templates is rendered.
"""
import ast
import os

from . import ops
from .values import ADict, Analysis, Func, Native, Obj

BINOPS = {'Add': ast.Add, 'Sub': ast.Sub, 'Mul': ast.Mult, 'Div': ast.Div, 'FloorDiv': ast.FloorDiv, 'Mod': ast.Mod, 'Pow': ast.Pow}
CMPOPS = {'eq': ast.Eq, 'ne': ast.NotEq, 'gt': ast.Gt, 'gteq': ast.GtE, 'lt': ast.Lt, 'lteq': ast.LtE, 'in': ast.In, 'notin': ast.NotIn}


def host_parse(src, options):
    import jinja2
    env = jinja2.Environment(**options)
    return env.parse(src)


class Scope:
    def __init__(self, parent, names, n):
        self.parent, self.names, self.n = parent, set(names), n

    def find(self, name):
        s = self
        while s is not None:
            if name in s.names:
                return f'v{s.n}_{name}'
            s = s.parent
        return None


class Translator:
    def __init__(self, path, tree):
        self.path = path
        self.tree = tree
        self.n = 0
        self.tmp = 0
        self.line = 1

    # ---------------------------------------------------------------- helpers
    def at(self, node, x):
        line = getattr(node, 'lineno', None) or self.line
        for y in ast.walk(x):
            if isinstance(y, (ast.expr, ast.stmt, ast.arg, ast.keyword, ast.excepthandler)):
                if getattr(y, 'lineno', None) is None:
                    y.lineno = line
                    y.col_offset = 0
                    y.end_lineno = line
                    y.end_col_offset = 0
        return x

    def load(self, name):
        return ast.Name(name, ast.Load())

    def call(self, name, *args):
        return ast.Call(self.load(name), list(args), [])

    def assign(self, name, value):
        return ast.Assign([ast.Name(name, ast.Store())], value)

    def bad(self, node):
        raise Analysis(f'{self.path}:{getattr(node, "lineno", "?")}: template construct {type(node).__name__} is not supported')

    def stored(self, body):
        """Names a scope assigns, not looking into the scopes inside it."""
        out = []

        def target(t):
            k = type(t).__name__
            if k == 'Name':
                out.append(t.name)
            elif k == 'Tuple':
                for i in t.items:
                    target(i)
            elif k != 'NSRef':
                self.bad(t)

        def walk(nodes):
            for x in nodes:
                k = type(x).__name__
                if k in ('Assign', 'AssignBlock'):
                    target(x.target)
                elif k == 'Macro':
                    out.append(x.name)
                elif k == 'Import':
                    out.append(x.target)
                elif k == 'FromImport':
                    for n in x.names:
                        out.append(n[1] if isinstance(n, tuple) else n)
                elif k == 'If':
                    walk(x.body)
                    walk([e for e in x.elif_])
                    walk(x.else_)
                elif k in ('Scope', 'With', 'For'):
                    pass
        walk(body)
        return list(dict.fromkeys(out))

    def enter(self, scope, body, given=()):
        """A new scope and the statements which give its names the values they have outside."""
        self.n += 1
        names = self.stored(body)
        s = Scope(scope, list(names) + list(given), self.n)
        init = [self.assign(f'v{s.n}_{n}', self.name(n, scope)) for n in names if n not in given]
        return s, init

    def name(self, n, scope):
        py = scope.find(n) if scope is not None else None
        if py is not None:
            return self.load(py)
        return self.call('__name', self.load('__ctx'), ast.Constant(n))

    # ---------------------------------------------------------------- module
    def module(self):
        scope, init = self.enter(None, self.tree.body)
        body = [self.assign('__out', ast.List([], ast.Load()))] + init + self.block(self.tree.body, scope)
        exports = ast.Dict([ast.Constant(n) for n in sorted(scope.names)], [self.load(f'v{scope.n}_{n}') for n in sorted(scope.names)])
        body.append(ast.Return(ast.Tuple([self.call('__join', self.load('__out')), exports], ast.Load())))
        fn = self.func('template', [], [], body)
        m = ast.Module([self.at(None, fn)], [])
        ast.fix_missing_locations(m)
        return m

    def func(self, name, args, defaults, body):
        if name == 'template':
            args = ['__env', '__ctx']
        return ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, list(defaults)), body, [], type_params=[])

    # ---------------------------------------------------------------- statements
    def block(self, nodes, scope):
        out = []
        for x in nodes:
            m = getattr(self, 's_' + type(x).__name__, None)
            if m is None:
                self.bad(x)
            self.line = getattr(x, 'lineno', None) or self.line
            for s in m(x, scope):
                out.append(self.at(x, s))
        return out

    def s_Output(self, x, scope):
        for n in x.nodes:
            if type(n).__name__ == 'TemplateData':
                e = ast.Constant(n.data)
            else:
                e = self.call('__str', self.load('__env'), self.e(n, scope))
            yield self.at(n, ast.Expr(ast.Call(ast.Attribute(self.load('__out'), 'append', ast.Load()), [e], [])))

    def s_If(self, x, scope):
        rest = self.block(x.else_, scope) or []
        for e in reversed(x.elif_):
            rest = [self.at(e, ast.If(self.e(e.test, scope), self.block(e.body, scope) or [ast.Pass()], rest))]
        yield ast.If(self.e(x.test, scope), self.block(x.body, scope) or [ast.Pass()], rest)

    def targets(self, t):
        return [t.name] if type(t).__name__ == 'Name' else [n for i in t.items for n in self.targets(i)]

    def target(self, t, scope):
        if type(t).__name__ == 'Name':
            return ast.Name(scope.find(t.name), ast.Store())
        if type(t).__name__ == 'Tuple':
            return ast.Tuple([self.target(i, scope) for i in t.items], ast.Store())
        self.bad(t)

    def uses(self, nodes, name):
        for x in nodes:
            if type(x).__name__ == 'Name' and x.name == name and x.ctx == 'load':
                return True
            if self.uses(x.iter_child_nodes(), name):
                return True
        return False

    def s_For(self, x, scope):
        if x.recursive:
            self.bad(x)
        names = self.targets(x.target)
        inner, init = self.enter(scope, x.body, names + ['loop'])
        self.tmp += 1
        seq, i = f'__seq{self.tmp}', f'__i{self.tmp}'
        it = self.call('__iter', self.e(x.iter, scope))
        if x.test is not None:
            self.n += 1
            ts = Scope(scope, names, self.n)
            # Jinja filters before it counts
            it = ast.ListComp(self.as_load(x.target, ts), [ast.comprehension(self.target(x.target, ts), it, [self.e(x.test, ts)], 0)])
        yield self.assign(seq, ast.Call(self.load('__list'), [it], []))
        body = list(init)
        if self.uses(x.body, 'loop'):
            body.insert(0, self.assign(f'v{inner.n}_loop', self.call('__Loop', self.load(i), self.load(seq))))
        body += self.block(x.body, inner)
        yield ast.For(ast.Tuple([ast.Name(i, ast.Store()), self.target(x.target, inner)], ast.Store()),
                      self.call('__enumerate', self.load(seq)), body or [ast.Pass()], [])
        if x.else_:
            es, einit = self.enter(scope, x.else_)
            yield ast.If(ast.UnaryOp(ast.Not(), self.load(seq)), einit + self.block(x.else_, es), [])

    def as_load(self, t, scope):
        if type(t).__name__ == 'Name':
            return self.load(scope.find(t.name))
        return ast.Tuple([self.as_load(i, scope) for i in t.items], ast.Load())

    def s_Continue(self, x, scope):
        yield ast.Continue()

    def s_Break(self, x, scope):
        yield ast.Break()

    def s_ExprStmt(self, x, scope):
        yield ast.Expr(self.e(x.node, scope))

    def s_Assign(self, x, scope):
        if type(x.target).__name__ == 'NSRef':
            yield ast.Expr(self.call('__setattr', self.name(x.target.name, scope), ast.Constant(x.target.attr), self.e(x.node, scope)))
            return
        yield ast.Assign([self.target(x.target, scope)], self.e(x.node, scope))

    def captured(self, body, scope):
        """Statements which collect the output of a body in __outN."""
        self.tmp += 1
        keep = f'__keep{self.tmp}'
        inner, init = self.enter(scope, body)
        return keep, [self.assign(keep, self.load('__out')), self.assign('__out', ast.List([], ast.Load()))] + init + self.block(body, inner)

    def s_AssignBlock(self, x, scope):
        keep, stmts = self.captured(x.body, scope)
        yield from stmts
        v = self.call('__join', self.load('__out'))
        if x.filter is not None:
            v = self.filter(x.filter, scope, v)
        yield ast.Assign([self.target(x.target, scope)], v)
        yield self.assign('__out', self.load(keep))

    def s_FilterBlock(self, x, scope):
        keep, stmts = self.captured(x.body, scope)
        yield from stmts
        self.tmp += 1
        t = f'__t{self.tmp}'
        yield self.assign(t, self.filter(x.filter, scope, self.call('__join', self.load('__out'))))
        yield self.assign('__out', self.load(keep))
        yield ast.Expr(ast.Call(ast.Attribute(self.load('__out'), 'append', ast.Load()), [self.call('__str', self.load('__env'), self.load(t))], []))

    def s_Scope(self, x, scope):
        inner, init = self.enter(scope, x.body)
        yield from init
        yield from self.block(x.body, inner)

    def s_With(self, x, scope):
        names = [n for t in x.targets for n in self.targets(t)]
        inner, init = self.enter(scope, x.body, names)
        for t, v in zip(x.targets, x.values):
            yield ast.Assign([self.target(t, inner)], self.e(v, scope))
        yield from init
        yield from self.block(x.body, inner)

    def macro_body(self, x, scope):
        args = [a.name for a in x.args]
        inner, init = self.enter(scope, x.body, args)
        defaults = [self.call('__undefined', ast.Constant(a)) for a in args[:len(args) - len(x.defaults)]]
        late = []
        for a, d in zip(args[len(args) - len(x.defaults):], x.defaults):
            defaults.append(self.load('__missing'))
            py = f'v{inner.n}_{a}'
            late.append(ast.If(ast.Compare(self.load(py), [ast.Is()], [self.load('__missing')]), [self.assign(py, self.e(d, inner))], []))
        self_args = [f'v{inner.n}_{a}' for a in args]
        body = [self.assign('__out', ast.List([], ast.Load()))] + late + init + self.block(x.body, inner)
        body.append(ast.Return(self.call('__join', self.load('__out'))))
        return args, self_args, defaults, body

    def s_Macro(self, x, scope):
        args, py, defaults, body = self.macro_body(x, scope)
        fn = self.func(x.name, py, defaults, body)
        yield fn
        yield self.assign(scope.find(x.name), self.call('__macro', self.load(x.name), ast.Constant(x.name),
                                                        ast.Tuple([ast.Constant(a) for a in args], ast.Load()),
                                                        ast.Tuple([ast.Constant(a) for a in py], ast.Load())))

    def locals_(self, scope):
        keys, vals, s, seen = [], [], scope, set()
        while s is not None:
            for n in sorted(s.names):
                if n not in seen:
                    seen.add(n)
                    keys.append(ast.Constant(n))
                    vals.append(self.load(f'v{s.n}_{n}'))
            s = s.parent
        return ast.Dict(keys, vals)

    def imported(self, x, scope):
        ctx = self.call('__merge', self.load('__ctx'), self.locals_known(scope)) if x.with_context else ast.Constant(None)
        return self.call('__import', self.load('__env'), self.e(x.template, scope), ctx)

    def locals_known(self, scope):
        # names of the scope may not be bound yet: imports stand at the top, where only what came before is known
        return ast.Dict([], [])

    def s_Import(self, x, scope):
        yield self.assign(scope.find(x.target), self.imported(x, scope))

    def s_FromImport(self, x, scope):
        self.tmp += 1
        t = f'__t{self.tmp}'
        yield self.assign(t, self.imported(x, scope))
        for n in x.names:
            n, a = n if isinstance(n, tuple) else (n, n)
            yield self.assign(scope.find(a), self.call('__attr', self.load(t), ast.Constant(n)))

    def s_Include(self, x, scope):
        v = self.call('__import', self.load('__env'), self.e(x.template, scope), self.call('__merge', self.load('__ctx'), self.locals_(scope)))
        yield ast.Expr(ast.Call(ast.Attribute(self.load('__out'), 'append', ast.Load()), [self.call('__str', self.load('__env'), v)], []))

    # ---------------------------------------------------------------- expressions
    def e(self, x, scope):
        m = getattr(self, 'e_' + type(x).__name__, None)
        if m is None:
            self.bad(x)
        return self.at(x, m(x, scope))

    def e_Const(self, x, scope):
        return ast.Constant(x.value)

    def e_TemplateData(self, x, scope):
        return ast.Constant(x.data)

    def e_Name(self, x, scope):
        return self.name(x.name, scope)

    def e_Getattr(self, x, scope):
        return self.call('__attr', self.e(x.node, scope), ast.Constant(x.attr))

    def e_Getitem(self, x, scope):
        if type(x.arg).__name__ == 'Slice':
            f = lambda v: self.e(v, scope) if v is not None else None
            return ast.Subscript(self.e(x.node, scope), ast.Slice(f(x.arg.start), f(x.arg.stop), f(x.arg.step)), ast.Load())
        return self.call('__item', self.e(x.node, scope), self.e(x.arg, scope))

    def arguments(self, x, scope):
        args = [self.e(a, scope) for a in x.args or ()]
        kw = [ast.keyword(k.key, self.e(k.value, scope)) for k in x.kwargs or ()]
        if x.dyn_args is not None:
            args.append(ast.Starred(self.e(x.dyn_args, scope), ast.Load()))
        if x.dyn_kwargs is not None:
            kw.append(ast.keyword(None, self.e(x.dyn_kwargs, scope)))
        return args, kw

    def e_Call(self, x, scope):
        args, kw = self.arguments(x, scope)
        return ast.Call(self.e(x.node, scope), args, kw)

    def filter(self, x, scope, value=None):
        if value is None:
            value = self.e(x.node, scope) if x.node is not None else None
        elif x.node is not None:
            value = self.filter(x.node, scope, value) if type(x.node).__name__ == 'Filter' else value
        args, kw = self.arguments(x, scope)
        return ast.Call(self.call('__filter', self.load('__env'), ast.Constant(x.name)), [value] + args, kw)

    def e_Filter(self, x, scope):
        return self.filter(x, scope)

    def e_Test(self, x, scope):
        args, kw = self.arguments(x, scope)
        return ast.Call(self.call('__test', self.load('__env'), ast.Constant(x.name)), [self.e(x.node, scope)] + args, kw)

    def e_Compare(self, x, scope):
        return ast.Compare(self.e(x.expr, scope), [CMPOPS[o.op]() for o in x.ops], [self.e(o.expr, scope) for o in x.ops])

    def e_And(self, x, scope):
        return ast.BoolOp(ast.And(), [self.e(x.left, scope), self.e(x.right, scope)])

    def e_Or(self, x, scope):
        return ast.BoolOp(ast.Or(), [self.e(x.left, scope), self.e(x.right, scope)])

    def e_Not(self, x, scope):
        return ast.UnaryOp(ast.Not(), self.e(x.node, scope))

    def e_Neg(self, x, scope):
        return ast.UnaryOp(ast.USub(), self.e(x.node, scope))

    def e_CondExpr(self, x, scope):
        other = self.e(x.expr2, scope) if x.expr2 is not None else self.call('__undefined', ast.Constant('conditional'))
        return ast.IfExp(self.e(x.test, scope), self.e(x.expr1, scope), other)

    def e_Concat(self, x, scope):
        return self.call('__join', ast.List([self.call('__str', self.load('__env'), self.e(n, scope)) for n in x.nodes], ast.Load()))

    def e_List(self, x, scope):
        return ast.List([self.e(i, scope) for i in x.items], ast.Load())

    def e_Tuple(self, x, scope):
        return ast.Tuple([self.e(i, scope) for i in x.items], ast.Load())

    def e_Dict(self, x, scope):
        return ast.Dict([self.e(p.key, scope) for p in x.items], [self.e(p.value, scope) for p in x.items])


def _binop(name):
    def f(self, x, scope):
        return ast.BinOp(self.e(x.left, scope), BINOPS[name](), self.e(x.right, scope))
    return f


for _n in BINOPS:
    setattr(Translator, 'e_' + _n, _binop(_n))


SRC = r'''
class UndefinedError(Exception):
    pass

class TemplateNotFound(Exception):
    pass

class Undefined:
    def __init__(self, hint=None):
        self.hint_ = hint
    def __getattr__(self, name):
        if name[:2] == '__':
            raise AttributeError(name)
        raise UndefinedError('undefined')
    def __getitem__(self, key):
        raise UndefinedError('undefined')
    def __call__(self, *a, **k):
        raise UndefinedError('undefined')
    def __bool__(self):
        return False
    def __iter__(self):
        return iter(())
    def __len__(self):
        return 0
    def __str__(self):
        return ''
    def __eq__(self, other):
        return type(self) is type(other)
    def __ne__(self, other):
        return not type(self) is type(other)
    def __hash__(self):
        return 0
    def __lt__(self, other):
        raise UndefinedError('undefined')
    __gt__ = __le__ = __ge__ = __add__ = __radd__ = __sub__ = __mod__ = __lt__

def __undefined(name):
    return Undefined(name)

class Missing:
    pass

__missing = Missing()
__enumerate = enumerate
__list = list

def __iter(x):
    return x

class __Loop:
    def __init__(self, i, seq):
        self.index0 = i
        self.index = i + 1
        self.length = len(seq)
        self.first = i == 0
        self.last = i == len(seq) - 1
        self.revindex = len(seq) - i
        self.revindex0 = len(seq) - i - 1
        self.previtem = seq[i - 1] if i else Undefined('previtem')
        self.nextitem = seq[i + 1] if i + 1 < len(seq) else Undefined('nextitem')

def __name(ctx, name):
    if name in ctx:
        return ctx[name]
    return Undefined(name)

def __merge(ctx, more):
    out = dict(ctx)
    out.update(more)
    return out

def __attr(obj, name):
    try:
        return getattr(obj, name)
    except AttributeError:
        pass
    try:
        return obj[name]
    except (TypeError, LookupError, AttributeError):
        return Undefined(name)

def __item(obj, key):
    try:
        return obj[key]
    except (AttributeError, TypeError, LookupError):
        pass
    if isinstance(key, str):
        try:
            return getattr(obj, key)
        except AttributeError:
            pass
    return Undefined(key)

def __setattr(ns, name, value):
    ns.vars[name] = value

class namespace:
    def __init__(self, *a, **k):
        self.vars = dict(*a, **k)
    def __getattr__(self, name):
        try:
            return self.vars[name]
        except KeyError:
            raise AttributeError(name)

def __str(env, x):
    if isinstance(x, str):
        s = x
    else:
        s = str(x)
    if env.autoescape:
        return _escape(s)
    return s

def _escape(s):
    return str(s).replace('&', '&amp;').replace('>', '&gt;').replace('<', '&lt;').replace("'", '&#39;').replace('"', '&#34;')

def __join(out):
    return ''.join(out)

def __macro(fn, name, args, names):
    def macro(*a, **k):
        known = dict(zip(args, names))
        return fn(*a, **{known[n]: v for n, v in k.items()})
    macro.__name__ = name
    return macro

class TemplateModule:
    def __init__(self, body, names):
        self.body_ = body
        self.names_ = names
    def __getattr__(self, name):
        names = self.__dict__.get('names_', {})
        if name in names:
            return names[name]
        raise AttributeError(name)
    def __str__(self):
        return self.body_

def __import(env, name, ctx):
    if ctx is None:
        ctx = dict(env.globals)
    body, names = __template(env, name)(env, ctx)
    return TemplateModule(body, names)

class Template:
    def __init__(self, env, name, extra=None):
        self.environment = env
        self.name = name
        self.extra = extra or {}
        self.fn = __template(env, name)
    def render(self, *a, **k):
        ctx = dict(self.environment.globals)
        ctx.update(self.extra)
        ctx.update(dict(*a, **k))
        return self.fn(self.environment, ctx)[0]

class PackageLoader:
    def __init__(self, package_name, package_path='templates', encoding='utf-8'):
        self.directory = package_name.replace('.', '/') + '/' + package_path

class FileSystemLoader:
    def __init__(self, searchpath, **k):
        self.directory = searchpath

class Environment:
    def __init__(self, **k):
        self.loader = k.get('loader')
        self.autoescape = bool(k.get('autoescape', False))
        self.options = {n: v for n, v in k.items() if n not in ('loader', 'autoescape', 'undefined')}
        self.filters = _filters()
        self.tests = _tests()
        self.globals = {'range': range, 'dict': dict, 'namespace': namespace}
        self.undefined = k.get('undefined', Undefined)
    def get_template(self, name, parent=None, globals=None):
        return Template(self, name, globals)

def __filter(env, name):
    return env.filters[name]

def __test(env, name):
    return env.tests[name]

def _default(value, default_value='', boolean=False):
    if isinstance(value, Undefined) or (boolean and not value):
        return default_value
    return value

def _getter(attribute):
    parts = attribute.split('.') if isinstance(attribute, str) else [attribute]
    def get(x):
        for p in parts:
            x = __item2(x, p)
        return x
    return get

def __item2(x, p):
    try:
        return getattr(x, p)
    except AttributeError:
        pass
    try:
        return x[p]
    except (TypeError, LookupError, AttributeError):
        return Undefined(p)

def _map(it, *a, **k):
    if 'attribute' in k:
        get = _getter(k['attribute'])
        return [get(x) for x in it]
    f = _filters()[a[0]]
    return [f(x, *a[1:]) for x in it]

def _join(it, d='', attribute=None):
    if attribute is not None:
        it = _map(it, attribute=attribute)
    return d.join([str(x) for x in it])

def _select(it, test=None, *a):
    if test is None:
        return [x for x in it if x]
    f = _tests()[test]
    return [x for x in it if f(x, *a)]

def _reject(it, test=None, *a):
    if test is None:
        return [x for x in it if not x]
    f = _tests()[test]
    return [x for x in it if not f(x, *a)]

def _selectattr(it, attribute, test=None, *a):
    get = _getter(attribute)
    if test is None:
        return [x for x in it if get(x)]
    f = _tests()[test]
    return [x for x in it if f(get(x), *a)]

def _rejectattr(it, attribute, test=None, *a):
    get = _getter(attribute)
    if test is None:
        return [x for x in it if not get(x)]
    f = _tests()[test]
    return [x for x in it if not f(get(x), *a)]

def _unique(it, *a, **k):
    out = []
    for x in it:
        if x not in out:
            out.append(x)
    return out

def _capitalize(s):
    s = str(s)
    return s[:1].upper() + s[1:].lower()

def _length(x):
    return len(x)

def _first(it):
    for x in it:
        return x
    return Undefined('first')

def _last(it):
    return _first(reversed(list(it)))

def _replace(s, old, new, count=None):
    return str(s).replace(old, new) if count is None else str(s).replace(old, new, count)

def _sort(it, reverse=False, case_sensitive=False, attribute=None):
    key = _getter(attribute) if attribute is not None else (lambda x: x)
    return sorted(it, key=key, reverse=reverse)

def _int(x, default=0, base=10):
    try:
        return int(x)
    except (TypeError, ValueError):
        return default

def _float(x, default=0.0):
    try:
        return float(x)
    except (TypeError, ValueError):
        return default

def _filters():
    return {
        'default': _default, 'd': _default, 'upper': lambda s: str(s).upper(), 'lower': lambda s: str(s).lower(),
        'map': _map, 'join': _join, 'select': _select, 'reject': _reject, 'selectattr': _selectattr, 'rejectattr': _rejectattr,
        'unique': _unique, 'capitalize': _capitalize, 'length': _length, 'count': _length, 'first': _first, 'last': _last,
        'replace': _replace, 'sort': _sort, 'int': _int, 'float': _float, 'string': lambda s: str(s), 'list': lambda x: list(x),
        'trim': lambda s, c=None: str(s).strip(c), 'e': _escape, 'escape': _escape, 'safe': lambda s: s,
        'reverse': lambda x: list(reversed(x)), 'abs': abs, 'attr': lambda o, n: __item2(o, n), 'pprint': lambda x: repr(x),
        'batch': None, 'sum': lambda it, *a: sum(it),
    }

def _tests():
    return {
        'none': lambda x: x is None, 'defined': lambda x: not isinstance(x, Undefined), 'undefined': lambda x: isinstance(x, Undefined),
        'string': lambda x: isinstance(x, str), 'number': lambda x: isinstance(x, (int, float)), 'mapping': lambda x: isinstance(x, dict),
        'true': lambda x: x is True, 'false': lambda x: x is False, 'boolean': lambda x: isinstance(x, bool), 'integer': lambda x: isinstance(x, int),
        'sequence': lambda x: isinstance(x, (list, tuple, str)), 'iterable': lambda x: isinstance(x, (list, tuple, str, dict)),
        'sameas': lambda x, y: x is y, 'in': lambda x, y: x in y, 'eq': lambda x, y: x == y, 'equalto': lambda x, y: x == y,
        'ne': lambda x, y: x != y, 'gt': lambda x, y: x > y, 'lt': lambda x, y: x < y, 'ge': lambda x, y: x >= y, 'le': lambda x, y: x <= y,
        'odd': lambda x: x % 2 == 1, 'even': lambda x: x % 2 == 0, 'callable': callable, 'greaterthan': lambda x, y: x > y, 'lessthan': lambda x, y: x < y,
    }
'''


CACHE = {}


def template_native(I):
    def template(I, a, k):
        env, name = a
        name = ops.resolve(I, name)
        loader = env.attrs.get('loader')
        if not isinstance(name, str) or not isinstance(loader, Obj):
            raise Analysis('template of unknown name or loader')
        directory = ops.resolve(I, loader.attrs.get('directory'))
        rel = directory + '/' + name
        path = os.path.join(I.repo, rel)
        if not os.path.exists(path):
            I.raise_(I.modules['<stub>.jinja2'].vars['TemplateNotFound'], name)
        options = {}
        for kk, v in env.attrs['options'].d.values():
            v = ops.resolve(I, v)
            options[kk] = I.to_list(v) if not isinstance(v, (str, bool, int, type(None))) else v
        with open(path, encoding='utf-8') as f:
            src = f.read()
        key = (rel, src, repr(options))
        tree = CACHE.get(key)
        if tree is None:
            import jinja2
            try:
                tree = Translator(rel, host_parse(src, options)).module()
            except jinja2.TemplateSyntaxError as e:
                raise Analysis(f'{rel}:{e.lineno}: {e.message}')
            CACHE[key] = tree
        mod = I.load_source('template:' + rel, src, rel, tree=tree, names=I.modules['<stub>.jinja2'].vars)
        return mod.vars['template']
    return Native('__template', template)
