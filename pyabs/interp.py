"""The abstract interpreter: evaluates syntax trees over abstract values with trace partitioning."""
import time
import ast
import decimal
import os
import threading

from . import ops
from .facts import Facts, ZERO
from .values import (AbsMap, AbsRaise, AColl, ADict, AList, Analysis, ASet, Bound, CachedProp, Cat, ClassM, Cls, Cut,
                     Extern, Func, Iter, Module, NATIVE, Native, Obj, Partial, Prop, Regex, Slice, StaticM, Super,
                     Sym, TS, XBytes, XElem, show)


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class GenKill(BaseException):
    """A generator that is not resumed any more."""


class GenBody:
    """The body of a generator: evaluated up to the next yield whenever its consumer asks for an item."""

    def __init__(self, interp, f, env):
        self.I, self.f, self.env = interp, f, env
        self.frames = [Frame(f.qualname, f.module.path, f.node.lineno, f)]
        self.excs = []
        self.thread = None
        self.done = self.running = False
        self.count = 0
        self.to_body, self.to_consumer = threading.Lock(), threading.Lock()
        self.to_body.acquire()
        self.to_consumer.acquire()

    def resume(self, kind='next', value=None):
        interp = self.I
        if self.running:
            interp.raise_('ValueError', 'generator already executing')
        if self.done or (self.thread is None and kind in ('throw', 'close')):
            self.done = True
            if kind == 'throw':
                raise AbsRaise(value, interp.where)
            return 'end', None
        fb, xb = len(interp.frames), len(interp.exc_stack)
        interp.frames.extend(self.frames)
        interp.exc_stack.extend(self.excs)
        self.running = True
        self.cmd = kind, value
        if self.thread is None:
            if interp.journaling:
                interp.live.append(self)
            old = threading.stack_size(1 << 27)
            self.thread = threading.Thread(target=self.run, daemon=True)
            self.thread.start()
            threading.stack_size(old)
        else:
            self.to_body.release()
        self.to_consumer.acquire()
        self.running = False
        self.frames, self.excs = interp.frames[fb:], interp.exc_stack[xb:]
        del interp.frames[fb:], interp.exc_stack[xb:]
        out, v = self.out
        if out == 'raise':
            raise v
        return out, v

    def run(self):
        try:
            self.I.block(self.f.node.body, self.env)
            self.out = 'end', None
        except ReturnEx as r:
            self.out = 'end', r.value
        except GenKill:
            self.out = 'end', None
        except BaseException as e:      # noqa: B902
            self.out = 'raise', e
        self.done = True
        self.to_consumer.release()

    def give(self, v):
        self.count += 1
        if self.count > 400:
            raise Cut('generator too long')
        self.out = 'yield', v
        self.to_consumer.release()
        self.to_body.acquire()
        kind, value = self.cmd
        if kind in ('kill', 'close'):
            raise GenKill()
        if kind == 'throw':
            raise AbsRaise(value, self.I.where)
        return value

    def kill(self):
        if self.thread is not None and not self.done:
            self.cmd = 'kill', None
            self.to_body.release()
            self.to_consumer.acquire()

    def items(self):
        while True:
            kind, v = self.resume()
            if kind == 'end':
                return v
            yield v


class Env:
    __slots__ = ('vars', 'parent', 'func', 'module', 'is_class', 'globals_', 'nonlocals', 'local_names', 'yields')

    def __init__(self, module, parent=None, func=None, is_class=False, vars=None):
        self.vars = {} if vars is None else vars
        self.parent = parent
        self.func = func
        self.module = module
        self.is_class = is_class
        self.globals_ = ()
        self.nonlocals = ()
        self.local_names = None
        self.yields = None


class Frame:
    __slots__ = ('name', 'path', 'line', 'func')

    def __init__(self, name, path, line, func=None):
        self.name, self.path, self.line, self.func = name, path, line, func


class Event:
    __slots__ = ('kind', 'name', 'args', 'kwargs', 'result', 'where', 'n')

    def __init__(self, kind, name, args, kwargs, result, where, n):
        self.kind, self.name, self.args, self.kwargs = kind, name, args, kwargs
        self.result, self.where, self.n = result, where, n

    def __repr__(self):
        return f'{self.kind}:{self.name}@{self.where}'


class Path:
    """One abstract trace: how it ended and what is known on it."""

    def __init__(self):
        self.kind = None        # 'return' | 'raise' | 'cut'
        self.value = None
        self.exc = None
        self.where = None
        self.facts = None
        self.events = []
        self.choices = []
        self.unmodelled = []
        self.cut = None
        self.data = {}
        self.snapshot = None

    def conditions(self):
        return '; '.join(self.facts.log) if self.facts else ''


def scan_locals(node):
    """Names bound in a function body (not descending into nested scopes)."""
    names, globs, nonloc, is_gen = set(), set(), set(), False
    stack = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            stack.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus inside binds here; first iterable is evaluated here
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    names.add(m.target.id)
            continue
        if isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonloc.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            is_gen = True
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            names.add(n.rest)
        stack.extend(ast.iter_child_nodes(n))
    return names - globs - nonloc, globs, nonloc, is_gen


class Interp:
    MAX_DEPTH = 120
    MAX_DECISIONS = 400
    MAX_STEPS = 400000
    MAX_ITER = 2            # k-limit for collections of unknown length
    MAX_WHILE = 60

    def __init__(self, repo, package='soapfish', overrides=None):
        self.repo = repo
        self.package = package
        self.overrides = overrides or {}
        self.modules = {}
        self.counter = 0
        self.journal = []
        self.journaling = False
        self.frames = []
        self.facts = Facts()
        self.events = []
        self.prefix = []
        self.choices = []
        self.unmodelled = []
        self.data = {}
        self.steps = 0
        self.exc_stack = []
        self.live = []              # generators that are suspended
        self.covered = set()        # (path, func qualname)
        self.covered_lines = set()
        self.loop_limit = self.MAX_ITER
        self.cuts = {}
        self.deadline = float('inf')
        self.eq_hook = None         # equality of modelled library objects
        self.hooks = {}             # dotted extern name -> model override for a scenario
        self.func_hooks = {}        # 'module:qualname' -> model for a function of the program
        from . import builtins_, models
        self.last_repo = None
        self.calls = []
        self.load_counter = None
        self.B = builtins_.install(self)
        models.install(self)
        self.load_counter = None
        self.last_repo = None

    # ------------------------------------------------------------------ state
    def new_id(self):
        self.counter += 1
        return self.counter

    def setd(self, d, k, v):
        if self.journaling:
            if k in d:
                old = d[k]
                self.journal.append(lambda: d.__setitem__(k, old))
            else:
                # keep insertion order on undo
                self.journal.append(lambda: d.pop(k, None))
        d[k] = v

    def deld(self, d, k):
        if self.journaling:
            snap = dict(d)

            def undo():
                d.clear()
                d.update(snap)
            self.journal.append(undo)
        del d[k]

    def touch_list(self, lst):
        if self.journaling:
            snap = list(lst)
            self.journal.append(lambda: lst.__setitem__(slice(None), snap))

    def touch_dict(self, d):
        if self.journaling:
            snap = dict(d)

            def undo():
                d.clear()
                d.update(snap)
            self.journal.append(undo)

    def sets(self, obj, name, v):
        if self.journaling:
            old = getattr(obj, name)
            self.journal.append(lambda: setattr(obj, name, old))
        setattr(obj, name, v)

    def undo(self):
        while self.journal:
            self.journal.pop()()

    # ------------------------------------------------------------------ exploration
    def explore(self, fn, max_paths=20000, limit=None):
        """Yield a Path for every abstract trace of fn()."""
        if self.load_counter is None:
            self.load_counter = self.counter
        stack = [[]]
        n = 0
        while stack:
            if time.time() > self.deadline:
                raise Analysis('time budget used up')
            self.prefix = stack.pop()
            self.choices = []
            self.facts = Facts()
            self.events = []
            self.unmodelled = []
            self.data = {}
            self.steps = 0
            self.frames = []
            self.exc_stack = []
            self.counter = self.load_counter
            self.journal = []
            self.journaling = True
            old_limit = self.loop_limit
            if limit is not None:
                self.loop_limit = limit
            p = Path()
            try:
                p.value = fn()
                p.kind = 'return'
            except AbsRaise as e:
                p.kind = 'raise'
                p.exc = e.exc
                p.where = e.where
            except Cut as e:
                p.kind = 'cut'
                p.cut = e
            finally:
                self.loop_limit = old_limit
            p.facts = self.facts
            p.events = self.events
            p.choices = list(self.choices)
            p.unmodelled = self.unmodelled
            p.data = self.data
            n += 1
            for i in range(len(self.prefix), len(self.choices)):
                taken, total = self.choices[i]
                base = [c[0] for c in self.choices[:i]]
                for alt in range(total - 1, -1, -1):
                    if alt != taken:
                        stack.append(base + [alt])
            if p.kind == 'cut' and p.cut.silent:
                pass
            else:
                yield p     # the consumer sees the live abstract heap
            for g in self.live:
                g.kill()
            self.live = []
            self.journaling = False
            self.undo()
            if n > max_paths:
                raise Analysis(f'more than {max_paths} abstract traces')

    def choose(self, n, why=None):
        if n <= 0:
            raise Cut('no feasible alternative', silent=True)
        if n == 1:
            return 0
        i = len(self.choices)
        if i >= self.MAX_DECISIONS:
            raise Cut('too many decisions on one trace')
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.choices.append((c, n))
        if why:
            self.facts.log.append(why[c] if isinstance(why, (list, tuple)) else f'{why}={c}')
        return c

    # ------------------------------------------------------------------ locations
    @property
    def where(self):
        if not self.frames:
            return ('?', 0, '?')
        f = self.frames[-1]
        return (f.path, f.line, f.name)

    def where_repo(self):
        for f in reversed(self.frames):
            if f.path and not f.path.startswith('<'):
                return (f.path, f.line, f.name)
        return self.where

    def event(self, kind, name, args=(), kwargs=None, result=None):
        e = Event(kind, name, tuple(args), dict(kwargs or {}), result, self.where_repo(), len(self.events))
        self.events.append(e)
        return e

    # ------------------------------------------------------------------ exceptions
    def raise_(self, cls, *args):
        if isinstance(cls, str):
            cls = self.B[cls]
        exc = Obj(cls, self.new_id())
        exc.attrs['args'] = tuple(args)
        raise AbsRaise(exc, self.where)

    # ------------------------------------------------------------------ modules
    def module_path(self, name):
        rel = name.replace('.', '/')
        for cand in (os.path.join(self.repo, rel + '.py'), os.path.join(self.repo, rel, '__init__.py')):
            if os.path.exists(cand):
                return cand
        return None

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == self.package or name.startswith(self.package + '.'):
            path = self.module_path(name)
            if path is None:
                self.raise_('ModuleNotFoundError', f'No module named {name}')
            with open(path, encoding='utf-8') as f:
                src = f.read()
            m = self.load_source(name, src, os.path.relpath(path, self.repo))
            if '.' in name:
                parent, _, last = name.rpartition('.')
                pm = self.import_module(parent)
                self.setd(pm.vars, last, m)
            return m
        if name.rpartition('.')[0] in self.modules:
            self.raise_('ModuleNotFoundError', f'No module named {name}')
        return Extern(name)

    def load_source(self, name, src, path, tree=None, names=None):
        if tree is None:
            tree = ast.parse(src, path)
        m = Module(name, path, tree)
        self.setd(self.modules, name, m)
        m.vars.update(names or {})
        m.vars['__name__'] = name
        m.vars['__file__'] = '/repo/' + path
        m.vars['__doc__'] = ast.get_docstring(tree)
        env = Env(m, vars=m.vars)
        self.frames.append(Frame('<module>', path, 0))
        try:
            self.block(tree.body, env)
        finally:
            self.frames.pop()
        return m

    # ------------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps % 4096 == 0 and time.time() > self.deadline:
            raise Analysis('time budget used up')
        if self.steps > self.MAX_STEPS:
            raise Cut('step limit')
        fr = self.frames[-1]
        fr.line = s.lineno
        if fr.path[0] != '<':
            self.last_repo = (fr.path, s.lineno, fr.name)
            self.covered_lines.add((fr.path, s.lineno))
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Analysis(f'{fr.path}:{s.lineno}: unsupported statement {type(s).__name__}')
        m(s, env)

    def st_Pass(self, s, env):
        pass

    def st_Expr(self, s, env):
        self.ev(s.value, env)

    def st_Global(self, s, env):
        pass

    st_Nonlocal = st_Global

    def st_Import(self, s, env):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, env)
            else:
                top = a.name.split('.')[0]
                self.store(top, self.import_module(top), env)

    def st_ImportFrom(self, s, env):
        base = s.module or ''
        if s.level:
            pkg = env.module.name
            is_pkg = env.module.path and env.module.path.endswith('__init__.py')
            up = s.level - (1 if is_pkg else 0)
            parts = pkg.split('.')
            parts = parts[:len(parts) - up] if up else parts
            base = '.'.join(parts + ([s.module] if s.module else []))
        m = self.import_module(base)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, Module):
                    names = m.vars.get('__all__')
                    keys = [k for k in m.vars if not k.startswith('_')] if names is None else self.to_list(names)
                    for k in keys:
                        self.store(k, m.vars[k], env)
                continue
            if isinstance(m, Module):
                if a.name in m.vars:
                    v = m.vars[a.name]
                else:
                    try:
                        v = self.import_module(m.name + '.' + a.name)
                    except AbsRaise:
                        self.raise_('ImportError', f'cannot import name {a.name}')
            else:
                v = self.extern_attr(m, a.name)
            self.store(a.asname or a.name, v, env)

    def extern_attr(self, m, name):
        full = m.name + '.' + name
        v = self.extern_values.get(full)
        return v if v is not None or full in self.extern_values else Extern(full)

    def st_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            v = self.call(dv, [v], {})
        self.store(s.name, v, env)

    def make_func(self, node, env):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {}
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[arg.arg] = self.ev(d, env)
        name = getattr(node, 'name', '<lambda>')
        qual = name
        if env.is_class:
            qual = env.vars['__qualname__'] + '.' + name
        elif env.func is not None:
            qual = env.func.qualname + '.<locals>.' + name
        f = Func(node, env, env.module, name, None, defaults, kwd, qualname=qual)
        key = id(node)
        info = self.scan_cache.get(key)
        if info is None:
            info = self.scan_cache[key] = (node, scan_locals(node))
        f.locals_, f.globals_, f.nonlocals, f.is_gen = info[1]
        return f

    scan_cache = {}

    def st_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        kw = {k.arg: self.ev(k.value, env) for k in s.keywords}
        meta = kw.pop('metaclass', None)
        qual = s.name
        if env.is_class:
            qual = env.vars['__qualname__'] + '.' + s.name
        elif env.func is not None:
            qual = env.func.qualname + '.<locals>.' + s.name
        cenv = Env(env.module, parent=env, func=env.func, is_class=True)
        cenv.vars['__qualname__'] = qual
        cenv.vars['__module__'] = env.module.name
        d = ast.get_docstring(s)
        if d:
            cenv.vars['__doc__'] = d
        self.class_stack.append(s.name)
        try:
            self.block(s.body, cenv)
        finally:
            self.class_stack.pop()
        bases = [self.as_class(b) for b in bases] or [self.B['object']]
        cls = self.make_class(s.name, bases, cenv.vars, env.module, meta, s, qual, kw)
        for d in reversed(s.decorator_list):
            cls = self.call(self.ev(d, env), [cls], {})
        self.store(s.name, cls, env)

    def make_class(self, name, bases, attrs, module, meta, node, qual, kw):
        """A class, made by its metaclass."""
        if meta is None:
            for b in bases:
                for c in b.mro:
                    if c.meta is not None:
                        meta = c.meta
                        break
                if meta is not None:
                    break
        cls = None
        if isinstance(meta, Cls) and not meta.builtin:
            f, _ = meta.lookup('__new__')
            if f is not None and not isinstance(f, Native):
                f = f.f if isinstance(f, StaticM) else f
                ad = self.new_dict([(k, v) for k, v in attrs.items()])
                cls = self.call(f, [meta, name, tuple(bases), ad], dict(kw))
            if cls is None:
                cls = self.build_class(name, bases, attrs, module, meta, node, qual, kw)
            cls.meta = cls.meta or meta
            if isinstance(cls, Cls) and cls.node is None and not cls.builtin:
                cls.node = node
            fi, own = meta.lookup('__init__')
            if fi is not None and own is not self.B['type'] and not own.builtin:
                self.call(fi, [cls, name, tuple(bases), self.new_dict(list(attrs.items()))], dict(kw))
        else:
            cls = self.build_class(name, bases, attrs, module, meta, node, qual, kw)
        return cls

    class_stack = []

    def as_class(self, b):
        if isinstance(b, Cls):
            return b
        if isinstance(b, Extern):
            if b.name not in self.extern_classes:
                self.extern_classes[b.name] = Cls(b.name, [self.B['object']], builtin=True)
            return self.extern_classes[b.name]
        raise Analysis(f'class base is not a class: {b!r}')

    def build_class(self, name, bases, attrs, module, meta, node, qual, kw=None):
        cls = Cls(name, bases, dict(attrs), module=module.name if module else None, meta=meta, node=node)
        cls.qualname = qual
        self.fix_methods(cls)
        if any(c.name == 'Enum' and c.builtin for c in cls.mro):
            self.make_enum(cls)
        for k, v in list(cls.attrs.items()):
            if isinstance(v, CachedProp) and v.name is None:
                v.name = k
            if isinstance(v, Obj):
                f, _ = v.cls.lookup('__set_name__')
                if f is not None:
                    self.call(Bound(v, f), [cls, k], {})
        for c in cls.mro[1:]:
            f = c.attrs.get('__init_subclass__')
            if f is not None:
                f = f.f if isinstance(f, ClassM) else f
                self.call(f, [cls], dict(kw or {}))
                break
        return cls

    def fix_methods(self, cls):
        for k, v in cls.attrs.items():
            f = v
            while isinstance(f, (StaticM, ClassM)):
                f = f.f
            if isinstance(f, Prop):
                for g in (f.fget, f.fset, f.fdel):
                    if isinstance(g, Func) and g.cls is None:
                        g.cls = cls
                continue
            if isinstance(f, CachedProp):
                f = f.f
            if isinstance(f, Func) and f.cls is None and f.env.is_class:
                f.cls = cls

    def make_enum(self, cls):
        members = []
        native = None
        for c in cls.mro:
            if c.name in ('str', 'int') and c.builtin:
                native = c.name
        for k, v in list(cls.attrs.items()):
            if k.startswith('_') or isinstance(v, (Func, StaticM, ClassM, Prop, CachedProp)):
                continue
            o = Obj(cls, self.new_id(), payload=v, tag=k)
            if isinstance(v, Obj) and v.cls.name == 'auto':
                o.payload = v = k.lower() if native == 'str' else len(members) + 1
            o.attrs['value'] = v
            o.attrs['_value_'] = v
            o.attrs['name'] = k
            o.attrs['_name_'] = k
            if native is None:
                o.payload = None
            # aliases
            for m in members:
                if m.attrs['value'] == v:
                    o = m
                    break
            else:
                members.append(o)
            cls.attrs[k] = o
        cls.attrs['__members_list__'] = tuple(members)

    def st_Return(self, s, env):
        raise ReturnEx(self.ev(s.value, env) if s.value is not None else None)

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e = self.scope_of(t.id, env)
                if t.id not in e.vars:
                    self.raise_('NameError', t.id)
                self.deld(e.vars, t.id)
            elif isinstance(t, ast.Attribute):
                self.delattr_(self.ev(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript):
                ops.delitem(self, self.ev(t.value, env), self.ev(t.slice, env))
            else:
                raise Analysis('unsupported del target')

    def st_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def st_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, env)
            self.store(t.id, ops.inplace(self, type(s.op).__name__, cur, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, self.mangle(t.attr))
            self.setattr(o, self.mangle(t.attr), ops.inplace(self, type(s.op).__name__, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            cur = ops.getitem(self, o, i)
            ops.setitem(self, o, i, ops.inplace(self, type(s.op).__name__, cur, self.ev(s.value, env)))
        else:
            raise Analysis('unsupported augmented target')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            if star is None:
                items = ops.unpack(self, v, len(t.elts))
                for e, x in zip(t.elts, items):
                    self.assign(e, x, env)
            else:
                items = self.to_list(v)
                after = len(t.elts) - star - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:star], items[:star]):
                    self.assign(e, x, env)
                self.assign(t.elts[star].value, self.new_list(items[star:len(items) - after]), env)
                for e, x in zip(t.elts[star + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            ops.setitem(self, self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Analysis(f'unsupported target {type(t).__name__}')

    def st_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def st_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > self.MAX_WHILE:
                raise Cut(f'while loop at {self.where} did not end within {self.MAX_WHILE} iterations')
            try:
                self.block(s.body, env)
            except BreakEx:
                return
            except ContinueEx:
                pass
        self.block(s.orelse, env)

    def st_For(self, s, env):
        it = self.iterate(self.ev(s.iter, env))
        for v in it:
            self.frames[-1].line = s.lineno
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.block(s.orelse, env)

    def st_Break(self, s, env):
        raise BreakEx()

    def st_Continue(self, s, env):
        raise ContinueEx()

    def st_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.raise_('AssertionError')

    def st_Raise(self, s, env):
        if s.exc is None:
            if not self.exc_stack:
                self.raise_('RuntimeError', 'No active exception to reraise')
            raise AbsRaise(self.exc_stack[-1], self.where)
        e = self.ev(s.exc, env)
        if isinstance(e, Cls):
            e = self.call(e, [], {})
        if isinstance(e, Extern):
            e = self.call(self.as_class(e), [], {})
        if s.cause is not None:
            c = self.ev(s.cause, env)
            if isinstance(e, Obj):
                self.setd(e.attrs, '__cause__', c)
        if isinstance(e, Sym):
            raise AbsRaise(e, self.where)
        if not (isinstance(e, Obj) and e.cls.issub(self.B['BaseException'])):
            self.raise_('TypeError', 'exceptions must derive from BaseException')
        raise AbsRaise(e, self.where)

    def exc_matches(self, exc, spec):
        if isinstance(spec, tuple):
            return any(self.exc_matches(exc, x) for x in spec)
        if isinstance(spec, Extern):
            spec = self.as_class(spec)
        if isinstance(exc, Sym):
            return ops.isinstance_(self, exc, spec)
        if isinstance(spec, Cls):
            return exc.cls.issub(spec)
        if isinstance(spec, Sym):
            # exceptions configured from outside
            k = ('exc-in', exc.cls.key(), spec.term)
            return self.atom(k)
        raise Analysis(f'unsupported except clause {spec!r}')

    def st_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except AbsRaise as e:
                depth = len(self.frames)
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.ev(h.type, env)):
                        del self.frames[depth:]
                        if h.name:
                            self.store(h.name, e.exc, env)
                        self.exc_stack.append(e.exc)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.exc_stack.pop()
                            if h.name:
                                ee = self.scope_of(h.name, env)
                                if h.name in ee.vars:
                                    self.deld(ee.vars, h.name)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except Cut:
            raise
        except (Analysis, GenKill):
            raise
        except BaseException:
            self.block(s.finalbody, env)
            raise
        else:
            self.block(s.finalbody, env)

    def st_With(self, s, env):
        self.with_items(s, list(s.items), env)

    def with_items(self, s, items, env):
        if not items:
            self.block(s.body, env)
            return
        item = items.pop(0)
        mgr = self.ev(item.context_expr, env)
        enter = self.getattr(mgr, '__enter__')
        exit_ = self.getattr(mgr, '__exit__')
        v = self.call(enter, [], {})
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v, env)
        try:
            self.with_items(s, items, env)
        except AbsRaise as e:
            cls = e.exc.cls if isinstance(e.exc, Obj) else None
            r = self.call(exit_, [cls, e.exc, None], {})
            if not self.truth(r):
                raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.call(exit_, [None, None, None], {})
            raise
        else:
            self.call(exit_, [None, None, None], {})

    def st_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.match_pattern(c.pattern, v, env) and (c.guard is None or self.truth(self.ev(c.guard, env))):
                self.block(c.body, env)
                return

    def match_pattern(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(ops.compare(self, 'Eq', v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(ops.compare(self, 'Is', v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match_pattern(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pattern(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (tuple, AList)):
                items = list(v) if isinstance(v, tuple) else v.items
                if len(items) != len(p.patterns):
                    return False
                return all(self.match_pattern(q, x, env) for q, x in zip(p.patterns, items))
            return False
        if isinstance(p, ast.MatchClass):
            if not ops.isinstance_(self, v, self.ev(p.cls, env)):
                return False
            if len(p.patterns) == 1 and not p.kwd_patterns:
                return self.match_pattern(p.patterns[0], v, env)
            if p.patterns:
                raise Analysis('unsupported class pattern')
            return all(self.match_pattern(q, self.getattr(v, k), env) for k, q in zip(p.kwd_attrs, p.kwd_patterns))
        raise Analysis(f'unsupported pattern {type(p).__name__}')

    # ------------------------------------------------------------------ names
    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__'):
            f = self.frames[-1].func if self.frames else None
            cname = None
            if f is not None and f.cls is not None:
                cname = f.cls.name
            elif f is not None:
                # nested function inside a method
                e = f.env
                while e is not None:
                    if e.func is not None and e.func.cls is not None:
                        cname = e.func.cls.name
                        break
                    e = e.parent
            if cname is None and self.class_stack:
                cname = self.class_stack[-1]
            if cname:
                return '_' + cname.lstrip('_') + name
        return name

    def scope_of(self, name, env):
        if name in env.globals_:
            e = env
            while e.parent is not None:
                e = e.parent
            return e
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if not e.is_class and name in e.vars:
                    return e
                e = e.parent
        return env

    def store(self, name, v, env):
        if env.is_class:
            name = self.mangle(name)
        self.setd(self.scope_of(name, env).vars, name, v)

    def load(self, name, env):
        if name in env.globals_:
            pass
        else:
            e = env
            if e.is_class:
                mn = self.mangle(name)
                if mn in e.vars:
                    return e.vars[mn]
            first = True
            while e is not None:
                if (first or not e.is_class) and name in e.vars:
                    return e.vars[name]
                if first and e.local_names is not None and name in e.local_names and name not in e.nonlocals:
                    self.raise_('UnboundLocalError', name)
                first = False
                e = e.parent
        mv = env.module.vars
        if name in mv:
            return mv[name]
        if name in self.B:
            return self.B[name]
        if name == '__class__':
            f = env.func
            if f is not None and f.cls is not None:
                return f.cls
        self.raise_('NameError', name)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Analysis(f'{self.where}: unsupported expression {type(e).__name__}')
        return m(e, env)

    def ex_Constant(self, e, env):
        return e.value

    def ex_Name(self, e, env):
        return self.load(e.id, env)

    def ex_Attribute(self, e, env):
        o = self.ev(e.value, env)
        self.frames[-1].line = e.lineno
        return self.getattr(o, self.mangle(e.attr))

    def ex_Subscript(self, e, env):
        return ops.getitem(self, self.ev(e.value, env), self.ev(e.slice, env))

    def ex_Slice(self, e, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return Slice(f(e.lower), f(e.upper), f(e.step))

    def ex_Index(self, e, env):
        return self.ev(e.value, env)

    def ex_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def ex_List(self, e, env):
        return self.new_list(self.elts(e.elts, env))

    def ex_Set(self, e, env):
        return self.new_set(self.elts(e.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.to_list(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def ex_Dict(self, e, env):
        d = self.new_dict([])
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, env)
                for kk, vv in ops.dict_items(self, src):
                    ops.dict_set(self, d, kk, vv)
            else:
                kv = self.ev(k, env)
                ops.dict_set(self, d, kv, self.ev(v, env))
        return d

    def ex_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.ev(x, env)
            t = self.truth(v)
            if t != is_and:
                return v
        return self.ev(e.values[-1], env)

    def ex_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        return ops.unary(self, type(e.op).__name__, v)

    def ex_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return ops.binop(self, type(e.op).__name__, a, b)

    def ex_Compare(self, e, env):
        left = self.ev(e.left, env)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            v = ops.compare(self, type(op).__name__, left, right)
            if i == len(e.ops) - 1:
                return v
            if not self.truth(v):
                return v
            left = right
        return v

    def ex_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def ex_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        x = env
        while x.func is not None and getattr(x, 'yields', None) == 'comp':
            x = x.parent
        self.store(e.target.id, v, x)
        return v

    def ex_Lambda(self, e, env):
        return self.make_func(e, env)

    def ex_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                parts.append(self.ex_FormattedValue(x, env))
        return ops.concat(self, parts)

    def ex_FormattedValue(self, e, env):
        v = self.ev(e.value, env)
        if e.conversion == 114:
            v = ops.repr_(self, v)
        elif e.conversion == 115:
            v = ops.str_(self, v)
        elif e.conversion == 97:
            v = ops.repr_(self, v)
        spec = self.ev(e.format_spec, env) if e.format_spec is not None else ''
        return ops.format_(self, v, spec)

    def ex_Starred(self, e, env):
        raise Analysis('unexpected starred')

    def comp_env(self, env):
        c = Env(env.module, parent=env, func=env.func)
        c.yields = 'comp'
        return c

    def comp_gen(self, gens, env, first_iter, emit):
        """Host generator running comprehension clauses lazily."""
        cenv = self.comp_env(env)

        def rec(i):
            if i == len(gens):
                yield emit(cenv)
                return
            g = gens[i]
            src = first_iter if i == 0 else self.iterate(self.ev(g.iter, cenv))
            for v in src:
                self.assign(g.target, v, cenv)
                if all(self.truth(self.ev(c, cenv)) for c in g.ifs):
                    yield from rec(i + 1)
        return rec(0)

    def ex_ListComp(self, e, env):
        it = self.iterate(self.ev(e.generators[0].iter, env))
        return self.new_list(list(self.comp_gen(e.generators, env, it, lambda c: self.ev(e.elt, c))))

    def ex_SetComp(self, e, env):
        it = self.iterate(self.ev(e.generators[0].iter, env))
        return self.new_set(list(self.comp_gen(e.generators, env, it, lambda c: self.ev(e.elt, c))))

    def ex_DictComp(self, e, env):
        it = self.iterate(self.ev(e.generators[0].iter, env))
        d = self.new_dict([])
        for k, v in self.comp_gen(e.generators, env, it, lambda c: (self.ev(e.key, c), self.ev(e.value, c))):
            ops.dict_set(self, d, k, v)
        return d

    def ex_GeneratorExp(self, e, env):
        it = self.iterate(self.ev(e.generators[0].iter, env))
        return Iter(self.comp_gen(e.generators, env, it, lambda c: self.ev(e.elt, c)), self.new_id())

    def ex_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        x = env
        while x.yields is None or x.yields == 'comp':
            x = x.parent
        return x.yields.give(v)

    def ex_YieldFrom(self, e, env):
        x = env
        while x.yields is None or x.yields == 'comp':
            x = x.parent
        it = self.ev(e.value, env)
        if isinstance(it, Iter) and it.body is not None:
            while True:
                kind, v = it.body.resume()
                if kind == 'end':
                    return v
                x.yields.give(v)
        for v in self.iterate(it):
            x.yields.give(v)
        return None

    def ex_Call(self, e, env):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = env.func
            ee = env
            while f is not None and f.cls is None and ee is not None:
                ee = ee.parent
                f = ee.func if ee is not None else None
            if f is None or f.cls is None:
                self.raise_('RuntimeError', 'super(): no arguments')
            fe = env
            while fe.yields == 'comp' or fe.func is not f:
                fe = fe.parent
            first = (f.node.args.posonlyargs + f.node.args.args)[0].arg
            return Super(f.cls, fe.vars[first])
        fn = self.ev(e.func, env)
        if isinstance(fn, Native) and fn.name == 'globals':
            return self.new_dict(list(env.module.vars.items()))
        if isinstance(fn, Native) and fn.name == 'locals':
            x = env
            while x.yields == 'comp':
                x = x.parent
            return self.new_dict(list(x.vars.items()))
        args = self.elts(e.args, env)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                src = self.ev(k.value, env)
                for kk, vv in ops.dict_items(self, src):
                    kwargs[kk if isinstance(kk, str) else repr(kk)] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        self.frames[-1].line = e.lineno
        return self.call(fn, args, kwargs)

    def ex_Await(self, e, env):
        raise Analysis('await not supported')

    # ------------------------------------------------------------------ calls
    def call_native(self, fn, args, kwargs):
        try:
            return fn.fn(self, list(args), kwargs)
        except (IndexError, TypeError, ValueError) as e:
            # too few (or too many) arguments for a built-in function: the model
            # fails where it takes its arguments apart
            tb = e.__traceback__.tb_next
            if kwargs or tb is None or tb.tb_next is not None:
                raise
            text = str(e)
            if not (isinstance(e, IndexError) or 'to unpack' in text
                    or 'positional argument' in text):
                raise
            self.raise_('TypeError', f'wrong number of arguments for {fn.name}()')

    def call(self, fn, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(fn, Func):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, Bound):
            return self.call(fn.func, [fn.self_] + list(args), kwargs)
        if isinstance(fn, Native):
            return self.call_native(fn, args, kwargs)
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, Partial):
            kw = dict(fn.kwargs)
            kw.update(kwargs)
            return self.call(fn.func, list(fn.args) + list(args), kw)
        if isinstance(fn, Extern):
            return self.call_extern(fn.name, args, kwargs)
        if isinstance(fn, (StaticM, ClassM)):
            return self.call(fn.f, args, kwargs)
        if isinstance(fn, Obj):
            f, _ = fn.cls.lookup('__call__')
            if f is not None:
                return self.call(Bound(fn, f), args, kwargs)
            self.raise_('TypeError', f'{fn.cls.name} object is not callable')
        if isinstance(fn, Sym):
            if ops.is_none(self, fn):
                self.raise_('TypeError', "'NoneType' object is not callable")
            return self.call_sym(fn, args, kwargs)
        self.raise_('TypeError', f'{fn!r} is not callable')

    def call_sym(self, fn, args, kwargs):
        h = self.hooks.get(('call', fn.term))
        if h is not None:
            return h(self, args, kwargs)
        r = Sym(('ret', fn.term, len(self.events)))
        self.event('call', fn.term, args, kwargs, r)
        return r

    def call_extern(self, name, args, kwargs):
        if name in self.extern_values:
            return self.call(self.extern_values[name], args, kwargs)
        h = self.hooks.get(name)
        if h is None:
            h = self.extern_models.get(name)
        if h is not None:
            return h(self, list(args), kwargs)
        return self.opaque_call(name, args, kwargs)

    PURE = ('os.path.', 'urllib.parse.', 'posixpath.', 'operator.')

    def opaque_call(self, name, args, kwargs):
        self.unmodelled.append((name, self.where_repo()))
        tt = tuple(ops.term(self, a) for a in args) + tuple((k, ops.term(self, v)) for k, v in sorted(kwargs.items()))
        if name.startswith(self.PURE):
            r = Sym(('ext', name) + tt)
        else:
            r = Sym(('ext', name, len(self.events)) + tt)
        self.event('extern', name, args, kwargs, r)
        return r

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vars = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(pos):
            if a.vararg is None:
                self.raise_('TypeError', f'{f.name}() takes {len(pos)} positional arguments but {len(args)} were given')
            vars[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            vars[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            vars[n] = v
        posonly = {x.arg for x in a.posonlyargs}
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for k, v in kwargs.items():
            if k in names and k not in posonly:
                if k in vars:
                    self.raise_('TypeError', f'{f.name}() got multiple values for argument {k}')
                vars[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_('TypeError', f'{f.name}() got an unexpected keyword argument {k}')
        if a.kwarg is not None:
            vars[a.kwarg.arg] = self.new_dict(list(extra.items()))
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vars:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vars[n] = f.defaults[j]
                else:
                    self.raise_('TypeError', f'{f.name}() missing required argument {n}')
        for x in a.kwonlyargs:
            if x.arg not in vars:
                if x.arg in f.kwdefaults:
                    vars[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.raise_('TypeError', f'{f.name}() missing keyword argument {x.arg}')
        return vars

    def call_func(self, f, args, kwargs):
        key = f.module.name + ':' + f.qualname
        h = self.func_hooks.get(key)
        if h is not None:
            return h(self, f, args, kwargs)
        vars = self.bind(f, args, kwargs)
        if len(self.frames) > self.MAX_DEPTH:
            if self.data.get('bounded'):
                self.raise_('RecursionError', f'endless recursion in {key}')
            self.data.setdefault('deep', []).append(key)
            raise Cut(f'call depth exceeded in {key}')
        env = Env(f.module, parent=f.env, func=f, vars=vars)
        env.globals_ = f.globals_
        env.nonlocals = f.nonlocals
        env.local_names = f.locals_
        self.frames.append(Frame(f.qualname, f.module.path, f.node.lineno, f))
        if f.module.path[0] != '<':
            self.covered.add((f.module.path, f.qualname))
            if len(self.calls) < 400:
                self.calls.append((f.module.path, f.node.lineno, f.qualname))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            if f.is_gen:
                env.yields = GenBody(self, f, env)
                it = Iter(env.yields.items(), self.new_id())
                it.body = env.yields
                return it
            try:
                self.block(f.node.body, env)
            except ReturnEx as r:
                return r.value
            return None
        finally:
            self.frames.pop()

    def instantiate(self, cls, args, kwargs):
        key = self.hooks.get(('new', cls.name)) if not cls.builtin else None
        if key is not None:
            return key(self, cls, args, kwargs)
        if cls.builtin:
            m = self.ctors.get(cls.name)
            if m is not None:
                return m(self, list(args), kwargs)
        if cls is self.B['type'] and len(args) == 1:
            return ops.type_of(self, args[0])
        if cls is self.B['type'] and len(args) == 3:
            name, bases, d = args
            f = self.frames[-1] if self.frames else None
            f = getattr(f, 'func', None) or f
            module = getattr(f, 'module', None)
            attrs = {k: v for k, v in ops.dict_items(self, d)}
            if module is not None:
                attrs.setdefault('__module__', module.name)
            return self.make_class(name, [self.as_class(b) for b in self.to_list(bases)] or [self.B['object']], attrs, module, None, None, name,
                                   kwargs)
        if '__members_list__' in cls.attrs:
            for m in cls.attrs['__members_list__']:
                if self.truth(ops.compare(self, 'Eq', m.attrs['value'], args[0])):
                    return m
            self.raise_('ValueError', f'not a valid {cls.name}')
        meta_call = None
        if cls.meta is not None and isinstance(cls.meta, Cls):
            f, own = cls.meta.lookup('__call__')
            if f is not None and not own.builtin:
                meta_call = f
        if meta_call is not None:
            return self.call(Bound(cls, meta_call), args, kwargs)
        return self.type_call(cls, args, kwargs)

    def type_call(self, cls, args, kwargs):
        f, own = cls.lookup('__new__')
        if f is not None and not own.builtin:
            f = f.f if isinstance(f, StaticM) else f
            o = self.call(f, [cls] + list(args), kwargs)
        else:
            o = self.raw_new(cls, args, kwargs)
        if isinstance(o, Obj) and o.cls.issub(cls):
            fi, own = o.cls.lookup('__init__')
            if fi is not None:
                self.call(Bound(o, fi), args, kwargs)
        return o

    def raw_new(self, cls, args=(), kwargs=None):
        """object.__new__ and its built-in relatives"""
        o = Obj(cls, self.new_id())
        for c in cls.mro:
            if c.builtin:
                if c.name == 'list':
                    o.payload = self.new_list([])
                    break
                if c.name in ('dict', 'OrderedDict', 'defaultdict'):
                    o.payload = self.new_dict([])
                    break
                if c.name in ('set', 'frozenset'):
                    o.payload = self.new_set([])
                    break
                if c.name in ('str', 'int', 'float', 'tuple') and args:
                    o.payload = self.ctors[c.name](self, list(args[:1]), {})
                    break
                if c.name == 'BaseException':
                    o.attrs['args'] = tuple(args)
                    break
        return o

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name, default=None, has_default=False):
        try:
            return ops.getattr_(self, o, name)
        except AbsRaise as e:
            if has_default and isinstance(e.exc, Obj) and e.exc.cls.issub(self.B['AttributeError']):
                return default
            raise

    def setattr(self, o, name, v):
        ops.setattr_(self, o, name, v)

    def delattr_(self, o, name):
        if isinstance(o, Obj):
            f, own = o.cls.lookup('__delattr__')
            if f is not None and not own.builtin:
                self.call(Bound(o, f), [name], {})
                return
            if name not in o.attrs:
                self.raise_('AttributeError', name)
            self.deld(o.attrs, name)
            return
        if isinstance(o, (Cls, Func)):
            if name not in o.attrs:
                self.raise_('AttributeError', name)
            self.deld(o.attrs, name)
            return
        raise Analysis('unsupported del attribute')

    # ------------------------------------------------------------------ construction helpers
    def new_list(self, items):
        return AList(items, self.new_id())

    def new_dict(self, items):
        d = ADict(self.new_id())
        for k, v in items:
            d.d[ops.keyterm(self, k)] = (k, v)
        return d

    def new_set(self, items, frozen=False):
        s = ASet(self.new_id(), frozen)
        for v in items:
            ops.set_add(self, s, v)
        return s

    def to_list(self, v):
        return list(self.iterate(v))

    def iterate(self, v):
        return ops.iterate(self, v)

    # ------------------------------------------------------------------ decisions
    def truth(self, v):
        return ops.truth(self, v)

    def atom(self, key, why=None):
        """Truth of an opaque predicate; one consistent answer per trace."""
        f = self.facts.truth
        if key in f:
            return f[key]
        c = self.choose(2)
        f[key] = not c
        self.facts.log.append((why or show(key)) + (' is true' if not c else ' is false'))
        return f[key]

    def types(self, s):
        return self.facts.types.get(s.term, s.ts)

    def narrow(self, s, ts):
        if ts.inc is not None and not ts.inc:
            raise Cut('no type left', silent=True)
        self.facts.types[s.term] = ts
