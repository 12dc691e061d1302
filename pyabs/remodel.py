"""Abstract model of regular expressions."""
import functools
import re
import warnings

with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    import sre_constants as sc
    import sre_parse

from . import methods, ops
from .facts import ZERO
from .values import AColl, Cat, Iter, MatchObj, NATIVE, Native, Obj, Regex, Sym, TS, show


def S(I):
    return TS([I.B['str']])


def nat(name, fn):
    return Native(name, lambda I, a, k: fn(*a, **k))


# ---------------------------------------------------------------------- pattern analysis
def parse(pat, flags):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return sre_parse.parse(pat, flags)


def finite_language(pat, flags, limit=64):
    """All strings matched in full by a small pattern without anchors at the start; None if unbounded.

    Result: (set of words, tail) with tail in '', '$', 'Z' (anchor at the end)."""
    if flags & (re.I | re.X | re.M):
        return None
    try:
        tree = parse(pat, flags)
    except re.error:
        return None
    items = list(tree)
    if items and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
        items = items[1:]
    tail = ''
    if items and items[-1][0] is sc.AT:
        if items[-1][1] is sc.AT_END:
            tail = '$'
        elif items[-1][1] is sc.AT_END_STRING:
            tail = 'Z'
        else:
            return None
        items = items[:-1]
    w = words_of(items, limit)
    return None if w is None else (w, tail)


def words_of(items, limit):
    out = ['']
    for op, arg in items:
        if op is sc.LITERAL:
            alts = [chr(arg)]
        elif op is sc.BRANCH:
            alts = []
            for b in arg[1]:
                x = words_of(list(b), limit)
                if x is None:
                    return None
                alts += x
        elif op is sc.SUBPATTERN:
            alts = words_of(list(arg[3]), limit)
        elif op is sc.IN:
            alts = []
            for o, v in arg:
                if o is sc.LITERAL:
                    alts.append(chr(v))
                elif o is sc.RANGE and v[1] - v[0] < 30:
                    alts += [chr(c) for c in range(v[0], v[1] + 1)]
                else:
                    return None
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = arg
            if hi is sc.MAXREPEAT or hi > 4:
                return None
            base = words_of(list(sub), limit)
            if base is None:
                return None
            alts = []
            cur = ['']
            for i in range(hi + 1):
                if i >= lo:
                    alts += cur
                cur = [a + b for a in cur for b in base]
                if len(cur) > limit:
                    return None
        else:
            return None
        if alts is None:
            return None
        out = [a + b for a in out for b in alts]
        if len(out) > limit:
            return None
    return list(dict.fromkeys(out))


def charset(items):
    """Characters of a single-character pattern as (frozenset, True) or None."""
    if len(items) != 1:
        return None
    op, arg = items[0]
    if op is sc.LITERAL:
        return frozenset(chr(arg))
    if op is sc.IN:
        out = set()
        for o, v in arg:
            if o is sc.LITERAL:
                out.add(chr(v))
            elif o is sc.RANGE and v[1] - v[0] < 300:
                out |= {chr(c) for c in range(v[0], v[1] + 1)}
            elif o is sc.CATEGORY and v is sc.CATEGORY_SPACE:
                out |= set(methods.UNIWS)
            else:
                return None
        return frozenset(out)
    if op is sc.CATEGORY and arg is sc.CATEGORY_SPACE:
        return frozenset(methods.UNIWS)
    if op is sc.SUBPATTERN:
        return charset(list(arg[3]))
    if op is sc.BRANCH:
        out = set()
        for b in arg[1]:
            x = charset(list(b))
            if x is None:
                return None
            out |= x
        return frozenset(out)
    return None


def digit_blind(tree):
    """No part of the pattern distinguishes one digit from another."""
    for op, arg in tree:
        if op in (sc.LITERAL, sc.NOT_LITERAL):
            if chr(arg).isdigit():
                return False
        elif op is sc.IN:
            digs = set()
            for o, v in arg:
                if o is sc.LITERAL and chr(v).isdigit():
                    digs.add(chr(v))
                elif o is sc.RANGE:
                    digs |= {chr(c) for c in range(v[0], min(v[1], 127) + 1) if chr(c).isdigit()}
                elif o is sc.CATEGORY and v is sc.CATEGORY_DIGIT:
                    digs |= set('0123456789')
            if digs and digs != set('0123456789'):
                return False
        elif op is sc.BRANCH:
            if not all(digit_blind(b) for b in arg[1]):
                return False
        elif op is sc.SUBPATTERN:
            if not digit_blind(arg[3]):
                return False
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            if not digit_blind(arg[2]):
                return False
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            if not digit_blind(arg[1]):
                return False
        elif op in (sc.AT, sc.ANY, sc.CATEGORY):
            pass
        else:
            return False
    return True


# ---------------------------------------------------------------------- matching
def text_arg(I, s):
    s = ops.resolve(I, ops.native_of(s))
    if isinstance(s, Sym):
        ts = I.types(s)
        if ts.inc is not None and not ops.all_in(ts, ('str',)):
            if not ops.isinstance_(I, s, I.B['str']):
                I.raise_('TypeError', 'expected string or bytes-like object')
        elif ts.inc is None:
            if not ops.isinstance_(I, s, I.B['str']):
                I.raise_('TypeError', 'expected string or bytes-like object')
        return ops.resolve(I, s)
    if isinstance(s, (str, bytes, Cat)):
        return s
    if s is None or isinstance(s, NATIVE):
        I.raise_('TypeError', 'expected string or bytes-like object')
    t = ops.as_text(I, s)
    if t is None:
        I.raise_('TypeError', 'expected string or bytes-like object')
    return t


def normal_pattern(I, pat, flags, kind):
    """(pattern value, kind) with anchors around an unknown pattern folded into the kind."""
    pat = ops.resolve(I, ops.native_of(pat))
    if isinstance(pat, Cat):
        ps = list(pat.parts)
        unk = [p for p in ps if not isinstance(p, str)]
        if len(unk) == 1 and len(ps) <= 3:
            i = ps.index(unk[0])
            pre = ps[0] if i == 1 else ''
            post = ps[-1] if i < len(ps) - 1 else ''
            start = False
            if pre.startswith(('^', r'\A')):
                start = True
                pre = pre[1:] if pre[0] == '^' else pre[2:]
            end = ''
            if post.endswith(r'\Z'):
                end, post = 'Z', post[:-2]
            elif post.endswith('$'):
                end, post = '$', post[:-1]
            grouped = (pre, post) in (('(?:', ')'), ('(', ')'))
            if grouped or (pre, post) == ('', ''):
                if kind == 'search' and start:
                    kind = 'match'
                if grouped:
                    if kind == 'fullmatch':
                        return unk[0], 'full'
                    if end == 'Z' and kind == 'match':
                        return unk[0], 'full'
                    if end == '$' and kind == 'match':
                        return unk[0], 'dollar'
                    if not end:
                        return unk[0], kind
                else:
                    # without the group an alternation in the pattern escapes the anchors
                    return unk[0], kind + ':' + ('^' if start else '') + end
    return pat, 'full' if kind == 'fullmatch' else kind


STRONGER = {'full': ('dollar', 'match', 'search', 'match:^', 'match:^Z', 'match:^$', 'match:Z', 'match:$', 'search:^',
                     'search:Z', 'search:$', 'fullmatch:^', 'fullmatch:Z', 'fullmatch:$', 'fullmatch:^$',
                     'fullmatch:^Z'),
            'dollar': ('match', 'search', 'match:^', 'match:$', 'match:^$', 'search:^', 'search:$'),
            'match': ('search',)}


def decide(I, pat, kind, s, flags):
    """Truth of 'pat matches s' for an unknown pattern or an unknown string."""
    pt, st = ops.term(I, pat), ops.term(I, s)
    key = ('rematch', kind, pt, st, flags)
    f = I.facts.truth
    if key in f:
        return f[key]
    for k2 in STRONGER.get(kind, ()):
        if f.get(('rematch', k2, pt, st, flags)) is False:
            f[key] = False
            return False
    for k2, weaker in STRONGER.items():
        if kind in weaker and f.get(('rematch', k2, pt, st, flags)) is True:
            f[key] = True
            return True
    return I.atom(key, f'{show(pt)} matches {show(st)} ({kind})')


def match(I, pat, s, flags, kind):
    """-> MatchObj or None"""
    s = text_arg(I, s)
    p0 = ops.resolve(I, ops.native_of(pat))
    if isinstance(p0, Sym) and I.types(p0).inc is not None and not ops.all_in(I.types(p0), ('str', 'bytes')):
        if not ops.isinstance_(I, p0, (I.B['str'], I.B['Pattern'])):
            I.raise_('TypeError', 'first argument must be string or compiled pattern')
        p0 = ops.resolve(I, p0)
    if p0 is None or isinstance(p0, (int, float)):
        I.raise_('TypeError', 'first argument must be string or compiled pattern')
    if isinstance(p0, str) and isinstance(s, str):
        try:
            m = getattr(re.compile(p0, flags), kind)(s)
        except re.error as e:
            I.raise_('error', str(e))
        return MatchObj(p0, kind, s, real=m) if m else None
    if isinstance(p0, (str,)):
        if any(isinstance(p, Sym) and p.term[0] == 'numdigits' for p in (s.parts if isinstance(s, Cat) else [s])):
            r = numeral_text(I, p0, flags, kind, s)
            if r is not None:
                return MatchObj(p0, (kind, flags), s) if r else None
        if isinstance(s, Cat) and any(isinstance(p, Sym) for p in s.parts):
            r = sample_match(I, p0, flags, kind, s)
            if r is not NotImplemented:
                return r
        if isinstance(s, Sym) and s.term[0] == 'str':
            r = integer_text(I, p0, flags, kind, s)
            if r is not None:
                return MatchObj(p0, (kind, flags), s) if r else None
        fl = finite_language(p0, flags)
        if fl is not None:
            words, tail = fl
            if kind == 'fullmatch' or (kind == 'match' and tail):
                words = list(words) + ([w + '\n' for w in words] if tail == '$' and kind == 'match' else [])
                for w in words:
                    if ops.truth(I, ops.eq(I, s, w)):
                        return MatchObj(p0, kind, w, real=getattr(re.compile(p0, flags), kind)(w))
                return None
            if kind == 'match':
                for w in words:
                    if ops.truth(I, methods.s_startswith(I, s, w)):
                        return MatchObj(p0, kind, s)
                return None
            if kind == 'search' and not tail:
                for w in words:
                    if ops.str_contains(I, s, w):
                        return MatchObj(p0, kind, s)
                return None
        if decide(I, p0, 'full' if kind == 'fullmatch' else kind, s, flags):
            return MatchObj(p0, (kind, flags), s)
        return None
    pv, k = normal_pattern(I, p0, flags, kind)
    if decide(I, pv, k, s, flags):
        return MatchObj(pv, k, s)
    return None


def numeral_text(I, pat, flags, kind, s):
    """The same for literals and digit runs of unknown length."""
    try:
        rx = re.compile(pat, flags)
    except re.error:
        return None
    reps = ['']
    for p in s.parts if isinstance(s, Cat) else [s]:
        if isinstance(p, str):
            reps = [r + p for r in reps]
        elif isinstance(p, Sym) and p.term[0] == 'numdigits':
            runs = [d * n for n in (1, 2, 3, 5, 12, 24) for d in '159'] + ['10', '20500', '987654321']
            reps = [r + x for r in reps for x in runs]
        else:
            return None
    got = {getattr(rx, kind)(t) is not None for t in reps}
    return got.pop() if len(got) == 1 else None


def integer_text(I, pat, flags, kind, s):
    """Does a constant pattern accept every / no text of an integer (uniform over sign and number of digits)?"""
    inner = s.term[1]
    if not ops.all_in(I.facts.types.get(inner) or I.types(s), ('int',)):
        return None
    try:
        rx = re.compile(pat, flags)
    except re.error:
        return None
    rel = ops.rel_possible(I, inner, ZERO, 0, ints=True)
    reps = []
    if '=' in rel:
        reps.append('0')
    for sign, r in (('', '>'), ('-', '<')):
        if r in rel:
            reps += [sign + d * n for n in range(1, 26) for d in '123456789'] + [sign + '1' + '0' * n for n in range(1, 25)]
    got = {getattr(rx, kind)(t) is not None for t in reps}
    return got.pop() if len(got) == 1 else None


def sample_match(I, pat, flags, kind, s):
    """Match a constant pattern against fields and literals through one representative text."""
    try:
        tree = parse(pat, flags)
    except re.error:
        return NotImplemented
    if not digit_blind(tree):
        return NotImplemented
    text, spans = '', []
    for p in s.parts:
        if isinstance(p, str):
            spans.append((len(text), len(text) + len(p), p))
            text += p
            continue
        w = digits_of(I, p)
        if w is None:
            return NotImplemented
        if w < 0:
            # a negative number
            spans.append((len(text), len(text) + 1 - w, p))
            text += '-' + '1' * -w
        else:
            spans.append((len(text), len(text) + w, p))
            text += '1' * w
    m = getattr(re.compile(pat, flags), kind)(text)
    if m is None:
        return None
    mo = MatchObj(pat, kind, s, real=m)
    mo.kind = ('sample', spans, text)
    return mo


def digits_of(I, p):
    """Number of digits of a numeric field (negative: with a sign), deciding its magnitude if needed."""
    t = p.term
    if t[0] == 'digits':
        return t[3] if t[3] else None
    if t[0] in ('pad', 'str'):
        inner = t[-1]
        ts = I.facts.types.get(inner)
        v = Sym(inner, TS([I.B['int']]))
        if t[0] == 'str' and not ops.all_in(I.types(v), ('int', 'bool')):
            return None
        if ops.rel_decide(I, inner, ZERO, 0, '<', ints=True):
            w = 1
            while w < 6 and not ops.rel_decide(I, inner, ZERO, -10 ** w, '>', ints=True):
                w += 1
            return -max(w, (t[1] - 1 if t[0] == 'pad' else 1))
        w = t[1] if t[0] == 'pad' else 1
        w0 = w
        while w < w0 + 6 and not ops.rel_decide(I, inner, ZERO, 10 ** w, '<', ints=True):
            w += 1
        return w
    return None


def span_text(I, m, a, b):
    """The part of the matched text between two offsets of the representative."""
    _, spans, text = m.kind
    out = []
    for s, e, p in spans:
        lo, hi = max(s, a), min(e, b)
        if lo >= hi:
            continue
        if (lo, hi) == (s, e):
            out.append(p)
        elif isinstance(p, str):
            out.append(p[lo - s:hi - s])
        else:
            out.append(Sym(('slice', p.term, lo - s, hi - s), S(I)))
            I.unmodelled.append(('regular expression group splits a field', I.where_repo()))
    return ops.norm_cat(I, out)


# ---------------------------------------------------------------------- shapes of unknown matched text
def shape(I, m):
    """Groups of a match of a constant pattern against unknown text: one alternative of the pattern is chosen."""
    kind = m.kind[0] if isinstance(m.kind, tuple) else m.kind
    flags = m.kind[1] if isinstance(m.kind, tuple) else 0
    key = ('shape', m.pattern, ops.term(I, m.string), kind)
    memo = I.data.setdefault('__shapes', {})
    if key in memo:
        return memo[key]
    tree = parse(m.pattern, flags)
    st = ops.term(I, m.string)
    groups = {}
    n = [0]

    def walk(items):
        out = []
        for op, arg in items:
            if op is sc.LITERAL:
                out.append(chr(arg))
            elif op is sc.IN:
                cs = charset([(op, arg)])
                if cs is not None and len(cs) <= 3:
                    cs = sorted(cs)
                    out.append(cs[I.choose(len(cs), [f'{show(st)} has {c!r}' for c in cs])])
                else:
                    n[0] += 1
                    out.append(Sym(('chars', st, n[0], 1), S(I)))
            elif op is sc.ANY:
                n[0] += 1
                out.append(Sym(('chars', st, n[0], 1), S(I)))
            elif op is sc.SUBPATTERN:
                g, _, _, sub = arg
                r = walk(list(sub))
                if g is not None:
                    groups[g] = ops.norm_cat(I, r)
                out += r
            elif op is sc.BRANCH:
                bs = arg[1]
                c = I.choose(len(bs), [f'{show(st)}: alternative {i + 1}' for i in range(len(bs))])
                out += walk(list(bs[c]))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, sub = arg
                sub = list(sub)
                if is_digit(sub):
                    n[0] += 1
                    fixed = lo if lo == hi else 0
                    s = Sym(('digits', st, n[0], fixed), S(I))
                    z = I.facts.zone
                    lt = ('len', s.term)
                    z.ints.add(lt)
                    z.assume(lt, ZERO, lo, {'>', '='})
                    if hi is not sc.MAXREPEAT:
                        z.assume(lt, ZERO, hi, {'<', '='})
                    it = ('int', s.term)
                    z.ints.add(it)
                    z.assume(it, ZERO, 0, {'>', '='})
                    if hi is not sc.MAXREPEAT:
                        z.assume(it, ZERO, 10 ** hi - 1, {'<', '='})
                    out.append(s)
                elif (lo, hi) == (0, 1):
                    if I.choose(2, [f'{show(st)}: optional part present', f'{show(st)}: optional part absent']) == 0:
                        out += walk(sub)
                elif lo == hi and lo < 10:
                    for _ in range(lo):
                        out += walk(sub)
                else:
                    n[0] += 1
                    s = Sym(('chars', st, n[0], 0), S(I))
                    lt = ('len', s.term)
                    I.facts.zone.ints.add(lt)
                    I.facts.zone.assume(lt, ZERO, lo if lo == 0 or len(sub) >= 1 else 0, {'>', '='})
                    out.append(s)
            elif op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT):
                pass
            elif op is sc.CATEGORY and arg is sc.CATEGORY_DIGIT:
                n[0] += 1
                out.append(Sym(('digits', st, n[0], 1), S(I)))
            else:
                n[0] += 1
                I.unmodelled.append((f'regular expression construct {op}', I.where_repo()))
                out.append(Sym(('chars', st, n[0], 0), S(I)))
        return out

    whole = ops.norm_cat(I, walk(list(tree)))
    memo[key] = (groups, whole, dict(tree.state.groupdict), tree.state.groups)
    return memo[key]


def is_digit(sub):
    if len(sub) != 1:
        return False
    op, arg = sub[0]
    if op is sc.IN:
        return charset_digits(arg)
    return op is sc.CATEGORY and arg is sc.CATEGORY_DIGIT


def charset_digits(arg):
    return all((o is sc.RANGE and v == (48, 57)) or (o is sc.CATEGORY and v is sc.CATEGORY_DIGIT) for o, v in arg)


def group(I, m, g):
    if m.real is not None:
        if isinstance(m.kind, tuple) and m.kind[0] == 'sample':
            try:
                a, b = m.real.span(g)
            except IndexError:
                I.raise_('IndexError', 'no such group')
            return None if a < 0 else span_text(I, m, a, b)
        try:
            return m.real.group(g)
        except IndexError:
            I.raise_('IndexError', 'no such group')
    if isinstance(m.pattern, str):
        groups, whole, names, count = shape(I, m)
        if g == 0:
            kind = m.kind[0] if isinstance(m.kind, tuple) else m.kind
            return m.string if kind == 'fullmatch' else whole
        i = names.get(g) if isinstance(g, str) else g
        if i is None or i >= count:
            I.raise_('IndexError', 'no such group')
        return groups.get(i)
    kind = m.kind
    if g == 0 and kind == 'full':
        return m.string
    return Sym(('group', ops.term(I, m.pattern), ops.term(I, m.string), g, kind), S(I))


def match_attr(I, m, name):
    if name == 'group':
        def f(*gs):
            gs = [ops.resolve(I, g) for g in (gs or (0,))]
            r = [group(I, m, g) for g in gs]
            return r[0] if len(r) == 1 else tuple(r)
        return nat(name, f)
    if name == '__getitem__':
        return nat(name, lambda g: group(I, m, ops.resolve(I, g)))
    if name in ('groups', 'groupdict'):
        def f(default=None):
            if not isinstance(m.pattern, str):
                I.unmodelled.append(('match.' + name, I.where_repo()))
                return ()
            rx = m.real.re if m.real is not None else re.compile(
                m.pattern, m.kind[1] if isinstance(m.kind, tuple) and len(m.kind) == 2 else 0)
            if name == 'groups':
                r = [group(I, m, i) for i in range(1, rx.groups + 1)]
                return tuple(default if x is None else x for x in r)
            return I.new_dict([(n, default if group(I, m, n) is None else group(I, m, n)) for n in rx.groupindex])
        return nat(name, f)
    if name == 'string':
        return m.string
    if name in ('start', 'end', 'span'):
        def f(g=0):
            if m.real is not None and not isinstance(m.kind, tuple):
                return getattr(m.real, name)(g)
            kind = m.kind[0] if isinstance(m.kind, tuple) else m.kind
            if g == 0 and kind in ('fullmatch', 'full'):
                n = ops.length(I, m.string)
                return {'start': 0, 'end': n, 'span': (0, n)}[name]
            if g == 0 and kind in ('match',) and name == 'end':
                # the end of a prefix match is the length exactly when ... unknown: keep the term
                t = ('matchend', ops.term(I, m.pattern), ops.term(I, m.string))
                z = I.facts.zone
                z.ints.add(t)
                I.unmodelled.append(('match.end', I.where_repo()))
                return Sym(t, TS([I.B['int']]))
            if g == 0 and name == 'start' and kind == 'match':
                return 0
            I.unmodelled.append(('match.' + name, I.where_repo()))
            return Sym(('match' + name, ops.term(I, m.pattern), ops.term(I, m.string), g), TS([I.B['int']]))
        return nat(name, f)
    if name == 're':
        return Regex(m.pattern)
    return None


def regex_attr(I, r, name):
    if name in ('match', 'fullmatch', 'search'):
        return nat(name, lambda s, *a: match(I, r.pattern, s, r.flags, name))
    if name in ('sub', 'subn', 'split', 'findall', 'finditer'):
        return Native(name, lambda I, a, k: FUNCS[name](I, [r.pattern] + a, dict(k, flags=r.flags)))
    if name == 'pattern':
        return r.pattern
    if name == 'flags':
        return r.flags
    return None


def unpattern(I, p):
    p = ops.resolve(I, p)
    if isinstance(p, Regex):
        return p.pattern, p.flags
    return p, 0


def flag(I, v):
    v = ops.resolve(I, ops.native_of(v)) if v is not None else 0
    return int(v) if isinstance(v, int) else 0


def matcher(kind):
    def f(I, a, k):
        p, f0 = unpattern(I, a[0] if a else k['pattern'])
        s = a[1] if len(a) > 1 else k['string']
        return match(I, p, s, f0 | flag(I, a[2] if len(a) > 2 else k.get('flags')), kind)
    return f


def sub(I, a, k):
    names = ('pattern', 'repl', 'string', 'count', 'flags')
    v = dict(zip(names, a))
    v.update(k)
    p, f0 = unpattern(I, v['pattern'])
    flags = f0 | flag(I, v.get('flags'))
    s = text_arg(I, v['string'])
    repl = ops.resolve(I, v['repl'])
    count = ops.resolve(I, v.get('count', 0))
    if isinstance(p, str) and isinstance(count, int) and not isinstance(repl, (str, bytes, Sym, Cat)) and repl is not None:
        if isinstance(s, str):
            out, at = [], 0
            for n, m in enumerate(re.finditer(p, s, flags)):
                if count and n == count:
                    break
                out += [s[at:m.start()], I.call(repl, [MatchObj(p, 'search', s, real=m)], {})]
                at = m.end()
            return ops.norm_cat(I, [ops.resolve(I, x) for x in out + [s[at:]]])
        # a function which gives the same text for every match
        made = ops.resolve(I, I.call(repl, [Sym(('match', p, ops.term(I, s)), TS([I.B['opaque']]))], {}))
        if isinstance(made, str):
            repl = made.replace('\\', r'\\')
    if isinstance(p, str) and isinstance(repl, str) and isinstance(s, str) and isinstance(count, int):
        return re.sub(p, repl, s, count=count, flags=flags)
    if isinstance(p, str) and isinstance(repl, str) and count == 0:
        tree = list(parse(p, flags))
        if isinstance(s, (Sym, Cat)) and only_forbidden(p, flags):
            from . import xmlmodel
            if not xmlmodel.may_be_forbidden(ops.term(I, s), I.data.get('wild') or ()):
                return s
        if repl == ' ':
            if len(tree) == 1 and tree[0][0] is sc.MAX_REPEAT:
                lo, hi, inner = tree[0][1]
                cs = charset(list(inner))
                if cs is not None and hi is sc.MAXREPEAT and lo == 1:
                    return methods.ws_apply(I, s, 'mapruns', cs)
                if cs == frozenset(' ') and hi is sc.MAXREPEAT and lo == 2:
                    return methods.ws_apply(I, s, 'mapruns', cs)
            if len(tree) == 2 and tree[0][0] is sc.LITERAL and tree[1][0] is sc.MAX_REPEAT:
                lo, hi, inner = tree[1][1]
                cs = charset(list(inner))
                if cs == frozenset(chr(tree[0][1])) and hi is sc.MAXREPEAT and lo in (0, 1):
                    return methods.ws_apply(I, s, 'mapruns', cs)
            cs = charset(tree)
            if cs is not None and all(c in methods.UNIWS for c in cs):
                return methods.ws_apply(I, s, 'map', cs)
        if repl == '':
            r = strip_pattern(I, tree, s)
            if r is not None:
                return r
        if isinstance(s, Cat):
            # apply piecewise when the pattern is a single character
            cs = charset(tree)
            if cs is not None and '\\' not in repl:
                out = []
                for q in s.parts:
                    if isinstance(q, str):
                        out.append(re.sub(p, repl, q, flags=flags))
                    elif any(ops.str_contains(I, q, c) for c in cs):
                        out.append(Sym(('resub', p, repl, q.term), S(I)))
                    else:
                        out.append(q)
                return ops.norm_cat(I, out)
        if isinstance(s, Sym):
            cs = charset(tree)
            if cs is not None and len(cs) <= 6 and not any(ops.str_contains(I, s, c) for c in cs):
                return s
        return Sym(('resub', p, repl, ops.term(I, s)), S(I))
    I.unmodelled.append(('re.sub with unknown pattern', I.where_repo()))
    return Sym(('resub', ops.term(I, p), ops.term(I, repl), ops.term(I, s)), S(I))


@functools.lru_cache(None)
def only_forbidden(p, flags):
    """The pattern matches nothing but runs of characters that XML documents can not hold."""
    try:
        tree = list(parse(p, flags))
        if len(tree) != 1 or tree[0][0] not in (sc.IN, sc.LITERAL, sc.NOT_LITERAL, sc.MAX_REPEAT):
            return False
        if tree[0][0] is sc.MAX_REPEAT and (tree[0][1][0] == 0 or len(tree[0][1][2]) != 1):
            return False
        allowed = ''.join(map(chr, [9, 10, 13, *range(32, 0xD800), *range(0xE000, 0xFFFE), *range(0x10000, 0x110000)]))
        return re.compile(p, flags).search(allowed) is None
    except re.error:
        return False


def strip_pattern(I, tree, s):
    def one(items):
        if len(items) == 2:
            if items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                x, side = items[1], 'lstrip'
            elif items[1][0] is sc.AT and items[1][1] in (sc.AT_END, sc.AT_END_STRING):
                x, side = items[0], 'rstrip'
            else:
                return None
            if x[0] is sc.MAX_REPEAT and x[1][1] is sc.MAXREPEAT and x[1][0] in (0, 1):
                cs = charset(list(x[1][2]))
                if cs is not None:
                    return side, cs
        return None
    if len(tree) == 1 and tree[0][0] is sc.BRANCH:
        rs = [one(list(b)) for b in tree[0][1][1]]
        if None in rs:
            return None
    else:
        r = one(tree)
        if r is None:
            return None
        rs = [r]
    for side, cs in rs:
        s = methods.ws_apply(I, s, side, cs)
    return s


def compile_(I, a, k):
    p, f0 = unpattern(I, a[0] if a else k['pattern'])
    flags = f0 | flag(I, a[1] if len(a) > 1 else k.get('flags'))
    if isinstance(p, str):
        try:
            re.compile(p, flags)
        except re.error as e:
            I.raise_('error', str(e))
    elif p is None or isinstance(p, (int, float)):
        I.raise_('TypeError', 'first argument must be string or compiled pattern')
    return Regex(p, flags)


def escape(I, a, k):
    s = ops.resolve(I, a[0])
    if isinstance(s, str):
        return re.escape(s)
    return Sym(('reescape', ops.term(I, s)), S(I))


def split(I, a, k):
    p, f0 = unpattern(I, a[0])
    s = text_arg(I, a[1])
    if isinstance(p, str) and isinstance(s, str):
        return I.new_list(re.split(p, s, *[x for x in a[2:] if isinstance(x, int)], flags=f0 | flag(I, k.get('flags'))))
    if isinstance(p, str) and len(a) == 2 and re.escape(p) == p:
        return methods.s_split(I, s, p)
    if isinstance(p, str):
        tree = list(parse(p, f0))
        cs = charset(tree)
        if cs is not None and len(cs) == 1 and len(a) == 2:
            return methods.s_split(I, s, next(iter(cs)))
    I.unmodelled.append(('re.split', I.where_repo()))
    ops.at_least(I, ('resplit', ops.term(I, p), ops.term(I, s)), 1)
    return AColl(('resplit', ops.term(I, p), ops.term(I, s)), I.new_id(),
                 lambda I, i: Sym(('resplit', ops.term(I, p), ops.term(I, s), i), S(I)), minlen=1)


def findall(I, a, k):
    p, f0 = unpattern(I, a[0])
    s = text_arg(I, a[1])
    if isinstance(p, str) and isinstance(s, str):
        return I.new_list(re.findall(p, s))
    I.unmodelled.append(('re.findall', I.where_repo()))
    return AColl(('findall', ops.term(I, p), ops.term(I, s)), I.new_id(),
                 lambda I, i: Sym(('findall', ops.term(I, p), ops.term(I, s), i), S(I)))


FUNCS = {'sub': sub, 'split': split, 'findall': findall, 'finditer': findall,
         'subn': lambda I, a, k: (sub(I, a, k), Sym(('subn', len(I.events)), TS([I.B['int']])))}


def install(I):
    from .values import Cls
    E, V = I.extern_models, I.extern_values
    I.B['error'] = Cls('error', [I.B['Exception']], builtin=True)
    V['re.error'] = V['re.PatternError'] = I.B['error']
    V['re.Pattern'] = I.B['Pattern']
    V['re.Match'] = I.B['Match']
    for n in ('match', 'fullmatch', 'search'):
        E['re.' + n] = matcher(n)
    for n, f in FUNCS.items():
        E['re.' + n] = f
    E['re.compile'] = compile_
    E['re.escape'] = escape
    for n in ('VERBOSE', 'X', 'IGNORECASE', 'I', 'MULTILINE', 'M', 'DOTALL', 'S', 'UNICODE', 'U', 'ASCII', 'A', 'NOFLAG'):
        V['re.' + n] = int(getattr(re, n))
