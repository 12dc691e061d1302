"""Effect analysis over a call graph of the syntax trees: what can be reached from serving requests."""
import ast
import builtins
import os

EFFECTS = (
    'builtins.open', 'io.open', 'io.FileIO', 'io.open_code', 'codecs.open', 'os.open', 'os.fdopen', 'os.listdir', 'os.scandir', 'os.walk',
    'os.system', 'os.popen', 'os.remove', 'os.unlink', 'os.rename', 'os.mkdir', 'os.makedirs', 'os.stat', 'os.path.exists', 'os.path.isfile',
    'os.path.isdir', 'glob.', 'pathlib.', 'shutil.', 'tempfile.', 'subprocess.', 'socket.', 'ssl.', 'requests.', 'urllib.request.', 'urllib3.',
    'httplib', 'http.client.HTTP', 'ftplib.', 'smtplib.', 'linecache.', 'fileinput.', 'importlib.machinery.SourceFileLoader', 'imp.load',
    'runpy.', 'pkgutil.get_data', 'lxml.etree.parse', 'lxml.etree.iterparse', 'lxml.etree.parseid', 'lxml.html.parse', 'xml.etree.ElementTree.parse',
    'urllib.urlopen', 'asyncio.open_connection', 'dbm.', 'shelve.', 'sqlite3.', 'mmap.')
METHODS = ('resolve_filename', 'resolve_file', 'read_text', 'read_bytes', 'write_text', 'write_bytes', 'urlopen')
NOT_EFFECTS = ('http.client.responses', 'http.client.HTTPException', 'requests.exceptions', 'requests.structures', 'requests.auth', 'pathlib.Pure',
               'requests.RequestException', 'http.client.HTTPMessage')


class Graph:
    def __init__(self, repo, package='soapfish'):
        self.repo = repo
        self.funcs = {}         # (module, qualname) -> node
        self.classes = {}       # (module, name) -> node
        self.env = {}           # module -> name -> dotted
        self.paths = {}
        base = os.path.join(repo, package)
        for top, dirs, files in os.walk(base):
            dirs[:] = [d for d in dirs if d not in ('__pycache__', 'testutil', 'templates', 'raw')]
            for f in sorted(files):
                if f.endswith('.py'):
                    path = os.path.join(top, f)
                    rel = os.path.relpath(path, repo)[:-3].replace(os.sep, '.')
                    mod = rel[:-len('.__init__')] if rel.endswith('.__init__') else rel
                    self.load(mod, path, f == '__init__.py')

    def load(self, mod, path, is_package):
        tree = ast.parse(open(path, encoding='utf-8').read(), path)
        self.paths[mod] = path
        env = self.env[mod] = {}
        pkg = mod if is_package else mod.rpartition('.')[0]
        for n in ast.walk(tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    env[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                b = n.module or ''
                if n.level:
                    up = pkg.split('.')
                    up = up[:len(up) - n.level + 1]
                    b = '.'.join(up + ([n.module] if n.module else []))
                for a in n.names:
                    env[a.asname or a.name] = f'{b}.{a.name}'

        def visit(nodes, prefix, cls):
            for n in nodes:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + n.name
                    self.funcs[mod, q] = (n, cls)
                    if not prefix:
                        env.setdefault(n.name, f'{mod}.{n.name}')
                    visit(n.body, q + '.<locals>.', cls)
                elif isinstance(n, ast.ClassDef):
                    q = prefix + n.name
                    self.classes[mod, q] = n
                    if not prefix:
                        env.setdefault(n.name, f'{mod}.{n.name}')
                    visit(n.body, q + '.', (mod, q))
                elif hasattr(n, 'body') and not isinstance(n, (ast.Lambda, ast.IfExp)):
                    for fld in ('body', 'orelse', 'finalbody', 'handlers'):
                        visit(getattr(n, fld, None) or [], prefix, cls)
        visit(tree.body, '', None)
        for n in tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Name, ast.Attribute)):
                d = self.dotted(mod, n.value)
                for t in n.targets:
                    if isinstance(t, ast.Name) and d:
                        env.setdefault(t.id, d)

    def dotted(self, mod, e):
        if isinstance(e, ast.Name):
            if e.id in self.env[mod]:
                return self.env[mod][e.id]
            return 'builtins.' + e.id if hasattr(builtins, e.id) else None
        if isinstance(e, ast.Attribute):
            b = self.dotted(mod, e.value)
            return f'{b}.{e.attr}' if b and not b.startswith('builtins.') else None

    def find(self, dotted):
        """Functions a dotted name of the package stands for."""
        for _ in range(6):
            mod = dotted
            while mod and mod not in self.paths:
                mod = mod.rpartition('.')[0]
            if not mod:
                return []
            q = dotted[len(mod) + 1:]
            if (mod, q) in self.funcs:
                return [(mod, q)]
            if (mod, q) in self.classes:
                return self.class_entry(mod, q)
            head, _, rest = q.partition('.')
            nxt = self.env[mod].get(head)
            if nxt is None or nxt == f'{mod}.{head}':
                return []
            dotted = nxt + ('.' + rest if rest else '')
        return []

    def methods(self, mod, q):
        return [k for k in self.funcs if k[0] == mod and k[1].startswith(q + '.') and '.' not in k[1][len(q) + 1:]]

    def class_entry(self, mod, q):
        """Naming a class may run its constructor; a subclass of a library class is called back by the library."""
        out = []
        node = self.classes[mod, q]
        foreign = False
        for b in node.bases:
            d = self.dotted(mod, b)
            if d and not self.find(d) and not d.startswith('soapfish.') and d not in ('builtins.object',):
                foreign = True
        for k in self.methods(mod, q):
            n = k[1].rpartition('.')[2]
            if foreign or n.startswith('__') and n.endswith('__'):
                out.append(k)
        return out or [(mod, q)]

    def by_name(self, name):
        return [k for k, (n, c) in self.funcs.items() if c and k[1] == f'{c[1]}.{name}']

    def edges(self, key):
        """(callees, effects) of one function; nested functions count as called."""
        mod, q = key
        if key not in self.funcs:
            return [], []
        node, cls = self.funcs[key]
        callees, effects = [], []
        bound = {a.arg for a in ast.walk(node) if isinstance(a, ast.arg)}
        for n in ast.walk(node):
            if n is not node and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for pre in (q + '.<locals>.', q + '.'):
                    if (mod, pre + n.name) in self.funcs:
                        callees.append((mod, pre + n.name))
            if isinstance(n, ast.ClassDef):
                q2 = q + '.<locals>.' + n.name
                if (mod, q2) in self.classes:
                    callees += self.class_entry(mod, q2)
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                d = None if isinstance(n, ast.Name) and n.id in bound else self.dotted(mod, n)
                if d:
                    if d.startswith(EFFECTS) and not d.startswith(NOT_EFFECTS) and not (d + '.').endswith(('pathlib.', 'requests.', 'socket.', 'ssl.')):
                        effects.append((d, n.lineno))
                    callees += self.find(d)
                elif isinstance(n, ast.Attribute):
                    if n.attr in METHODS:
                        effects.append((n.attr, n.lineno))
                    if not (n.attr.startswith('__') and n.attr.endswith('__')):
                        callees += self.by_name(n.attr)
            if isinstance(n, ast.Call):
                d = self.dotted(mod, n.func)
                for kw in n.keywords:
                    if d == 'lxml.etree.XMLParser' and kw.arg == 'no_network' and not (isinstance(kw.value, ast.Constant) and kw.value.value):
                        effects.append(('XMLParser(no_network)', n.lineno))
                    if d == 'lxml.etree.XMLSchema' and kw.arg == 'file':
                        effects.append(('XMLSchema(file)', n.lineno))
        return callees, effects


ROOTS = (('soapfish.soap_dispatch', ''), ('soapfish.middlewares', ''), ('soapfish.core', ''), ('soapfish.flask_', ''), ('soapfish.django_', ''),
         ('soapfish.soap11', ''), ('soapfish.soap12', ''), ('soapfish.wsa', ''), ('soapfish.soap', 'Service'), ('soapfish.xsd', ''),
         ('soapfish.py2xsd', 'schema_validator'), ('soapfish.py2xsd', 'generate_xsd'), ('soapfish.py2wsdl', 'generate_wsdl'))


def serving(repo):
    """Obligations: no function reachable from serving has an input or output effect."""
    g = Graph(repo)
    todo = [(k, ()) for k in sorted(g.funcs) for m, p in ROOTS
            if k[0] == m and (not p or k[1] == p or k[1].startswith(p + '.')) and k[1] != 'main']
    seen = set()
    while todo:
        key, path = todo.pop(0)
        if key in seen:
            continue
        seen.add(key)
        callees, effects = g.edges(key)
        node = g.funcs[key][0] if key in g.funcs else None
        where = f'{g.paths[key[0]]}:{node.lineno if node else 0} in {key[1]}'
        if effects:
            yield False, where, 'nothing reachable from serving opens a connection or a file', effects[:4] + [' -> '.join(path + (key[1],))]
        else:
            yield True, where, 'nothing reachable from serving opens a connection or a file', ()
        for c in callees:
            if c not in seen:
                todo.append((c, path + (key[1],)))
