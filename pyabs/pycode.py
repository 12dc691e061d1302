"""Generated program text whose document texts are unknown: how each text is quoted, and the program it makes.

The text is a concatenation of constants and unknown texts.  Every unknown text is replaced by a placeholder of its own, the result is
tokenized and parsed, and each placeholder is judged by the token it ends up in: a text may stand in a comment it can not end, in a
string literal whose quotes it can not leave and whose escapes it can not change, or be the result of repr() standing as an expression.
Everything else lets the text of a document become code.  The syntax tree with the placeholders bound to the unknown values is then an
ordinary program for the interpreter."""
import ast
import functools
import io
import re
import re._constants as sre
import tokenize
from re._parser import parse

from . import ops
from .values import Cat, Sym, TS

LIT, LIT_END = '\ue000', '\ue001'
RAW, RAW_END = '\ue002', '\ue003'
INT = '__int_%d__'
HEX = 'hx%dx'
WORD = 'wd%dx'
ANY = re.compile(f'{LIT}(\\d+){LIT_END}|{RAW}(\\d+){RAW_END}')


class Leak(Exception):
    def __init__(self, why, value=None, context=''):
        super().__init__(why)
        self.why, self.value, self.context = why, value, context


def value_of(I, t):
    if t[0] == 'c':
        return t[1]
    if t[0] == 'cat':
        return ops.norm_cat(I, [value_of(I, x) for x in t[1:]])
    return Sym(t, TS([I.B['str']]))


def is_digest(t):
    """(A slice of) a hexadecimal digest: letters and digits only."""
    return isinstance(t, tuple) and bool(t) and (t[0] == 'hexdigest' or t[0] in ('slice', 'getslice') and is_digest(t[1]))


def is_time(t):
    """Made from the current time alone."""
    found, stack = False, [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple) and x:
            if x[0] == 'v':
                return False
            found = found or x[0] == 'now'
            stack.extend(x)
    return found


@functools.lru_cache(None)
def only_words(pattern, repl):
    """Replacing the pattern leaves letters, digits and underscores only."""
    try:
        tree = list(parse(pattern))
        if len(tree) == 1 and tree[0][0] is sre.MAX_REPEAT and tree[0][1][0] == 1:
            tree = list(tree[0][1][2])
        if len(tree) != 1 or tree[0][0] not in (sre.IN, sre.CATEGORY) or not re.fullmatch(r'\w*', repl):
            return False
        return all(re.fullmatch(pattern, c) for c in map(chr, range(0x3000)) if not re.match(r'\w', c))
    except re.error:
        return False


def is_word(t):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'resub' and len(t) == 4 and isinstance(t[1], str) and isinstance(t[2], str):
        return only_words(t[1], t[2])
    if t[0] in ('lower', 'upper', 'slice', 'getslice', 'first', 'middle', 'last'):
        return any(is_word(x) for x in t[1:] if isinstance(x, tuple))
    return False


class Text:
    def __init__(self, I, text):
        self.I = I
        self.values = []
        self.index = {}
        out = []
        for p in (text.parts if isinstance(text, Cat) else [text]):
            if isinstance(p, str):
                if any(c in p for c in (LIT, LIT_END, RAW, RAW_END)):
                    raise Leak('private characters in constant text')
                out.append(p)
            elif isinstance(p, Sym):
                out.append(self.placeholder(p, out[-1][-1:] if out else ''))
            else:
                raise Leak(f'not a text: {p!r}')
        self.source = ''.join(out)

    def number(self, kind, value, key):
        k = (kind, key)
        if k not in self.index:
            self.index[k] = len(self.values)
            self.values.append(value)
        return self.index[k]

    def placeholder(self, p, before):
        t = p.term
        if t[0] == 'repr':
            v = value_of(self.I, t[1])
            n = self.number('repr', v, t[1])
            if before and (before.isalnum() or before in '_\'"\\'):
                raise Leak('a quoted text follows other text directly', v, before)
            return f"'{LIT}{n}{LIT_END}'"
        if is_word(t):
            return WORD % self.number('word', p, t)
        if is_digest(t):
            return HEX % self.number('hex', p, t)
        if t[0] == 'str' and ops.all_in(self.I.types(Sym(t[1])), ('int', 'bool')):
            return INT % self.number('int', Sym(t[1], TS([self.I.B['int']])), t)
        return f'{RAW}{self.number("raw", p, t)}{RAW_END}'

    # ------------------------------------------------------------------
    def holds(self, v, chars, where, context):
        for c in chars:
            if ops.str_contains(self.I, v, c):
                raise Leak(f'a text holding {c!r} {where}', v, context)

    def tokens(self):
        try:
            return list(tokenize.generate_tokens(io.StringIO(self.source).readline))
        except (tokenize.TokenError, SyntaxError, IndentationError) as e:
            raise Leak(f'not a program: {e}', self.near(e), self.line(e))

    def line(self, e):
        n = getattr(e, 'lineno', None) or (e.args[1][0] if len(e.args) > 1 and isinstance(e.args[1], tuple) else None)
        lines = self.source.split('\n')
        return self.readable(lines[n - 1]) if n and n <= len(lines) else ''

    def near(self, e):
        n = getattr(e, 'lineno', None)
        lines = self.source.split('\n')
        m = ANY.search(lines[n - 1]) if n and n <= len(lines) else None
        return self.values[int(m.group(1) or m.group(2))] if m else None

    def readable(self, s):
        return ANY.sub(lambda m: '{%r}' % (self.values[int(m.group(1) or m.group(2))],), s).strip()

    def judge(self):
        """Raises Leak unless every placeholder is confined."""
        for tok in self.tokens():
            if not ANY.search(tok.string):
                continue
            context = self.readable(tok.line)
            found = [(m.group(1), m.group(2), m) for m in ANY.finditer(tok.string)]
            if tok.type == tokenize.COMMENT:
                for lit, raw, m in found:
                    if raw is not None and not is_time(self.values[int(raw)].term):
                        self.holds(self.values[int(raw)], '\n\r', 'ends the comment it is in', context)
            elif tok.type == tokenize.STRING:
                m = re.match(r'(?i)([a-z]*)("""|\'\'\'|"|\')', tok.string)
                prefix, quote = m.group(1).lower(), m.group(2)
                for lit, raw, f in found:
                    if lit is not None:
                        if tok.string != f'{quote}{f.group(0)}{quote}' or prefix:
                            raise Leak('a quoted text inside of another literal', self.values[int(lit)], context)
                        continue
                    v = self.values[int(raw)]
                    if prefix not in ('', 'r'):
                        raise Leak(f'a text in a literal with prefix {prefix}', v, context)
                    self.holds(v, quote[0] + '\n\r', f'leaves the literal {prefix}{quote[0]}...{quote[0]} it is in', context)
                    if prefix == '':
                        self.holds(v, '\\', 'changes in the literal it is in', context)
                    elif tok.string[f.end():] == quote:
                        if ops.truth(self.I, self.I.call(self.I.getattr(v, 'endswith'), ['\\'], {})):
                            raise Leak('a text ending with a backslash leaves the raw literal it is in', v, context)
                    elif tok.string[f.end():f.end() + 1] in ('\\', quote[0], LIT, RAW):
                        self.holds(v, '\\', 'changes in the literal it is in', context)
            else:
                i = int(found[0][0] or found[0][1])
                raise Leak('a text of the document becomes code', self.values[i], context)

    # ------------------------------------------------------------------
    def tree(self):
        self.judge()
        try:
            tree = ast.parse(self.source)
        except SyntaxError as e:
            raise Leak(f'not a program: {e.msg}', self.near(e), self.line(e))
        names = {}

        class Bind(ast.NodeTransformer):
            def visit_Constant(me, node):
                s = node.value
                if not isinstance(s, str) or not ANY.search(s):
                    return node
                m = ANY.fullmatch(s)
                if m:
                    v = self.values[int(m.group(1) or m.group(2))]
                else:
                    parts, at = [], 0
                    for m in ANY.finditer(s):
                        parts += [s[at:m.start()], self.values[int(m.group(2))]]
                        at = m.end()
                    v = ops.norm_cat(self.I, [p for p in [*parts, s[at:]] if p != ''])
                n = f'__text_{len(names)}__'
                names[n] = v
                return ast.copy_location(ast.Name(n, ast.Load()), node)
        tree = ast.fix_missing_locations(Bind().visit(tree))
        for (kind, key), i in self.index.items():
            if kind == 'int':
                names[INT % i] = self.values[i]
        return tree, names

    def literals(self):
        """The values of the string literals made of unknown texts."""
        return list(self.tree()[1].values())

    def load(self, name):
        tree, names = self.tree()
        return self.I.load_source(name, None, f'<{name}>', tree=tree, names=names)
