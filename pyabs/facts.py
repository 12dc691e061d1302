"""Path facts: type sets, truth atoms, constant bindings and a zone (difference bound) domain."""
import decimal
import math
from fractions import Fraction

from .values import Cut, TS

ZERO = ('0',)


def num(x):
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return x
        return Fraction(x) if x != int(x) else int(x)
    if isinstance(x, decimal.Decimal):
        if not x.is_finite():
            return float(x)
        f = Fraction(x)
        return int(f) if f.denominator == 1 else f
    return x


class Zone:
    def __init__(self):
        self.b = {}         # (x, y) -> (k, strict):  x - y <= k   (closed)
        self.neq = set()    # (x, y, k): x - y != k
        self.ints = set()
        self.nodes = {ZERO}

    def copy(self):
        z = Zone()
        z.b = dict(self.b)
        z.neq = set(self.neq)
        z.ints = set(self.ints)
        z.nodes = set(self.nodes)
        return z

    def _isint(self, x, y):
        return (x == ZERO or x in self.ints) and (y == ZERO or y in self.ints)

    def _norm(self, x, y, k, s):
        if self._isint(x, y):
            k = math.ceil(k) - 1 if s else math.floor(k)
            s = False
        return k, s

    @staticmethod
    def _tighter(a, b):
        return b is None or a[0] < b[0] or (a[0] == b[0] and a[1] and not b[1])

    def get(self, x, y):
        if x == y:
            return (0, False)
        return self.b.get((x, y))

    def add(self, x, y, k, s):
        """x - y <= k (strict if s)"""
        k, s = self._norm(x, y, k, s)
        self.nodes.add(x)
        self.nodes.add(y)
        if not self._tighter((k, s), self.get(x, y)):
            return
        back = self.get(y, x)
        if back is not None and (back[0] + k < 0 or (back[0] + k == 0 and (s or back[1]))):
            raise Cut('contradictory order facts', silent=True)
        for i in self.nodes:
            ix = self.get(i, x)
            if ix is None:
                continue
            for j in self.nodes:
                yj = self.get(y, j)
                if yj is None or i == j:
                    continue
                nk, ns = self._norm(i, j, ix[0] + k + yj[0], ix[1] or s or yj[1])
                if self._tighter((nk, ns), self.b.get((i, j))):
                    self.b[(i, j)] = (nk, ns)
        # disequalities may now tighten
        for (a, c, kk) in list(self.neq):
            for (p, q, d) in ((a, c, kk), (c, a, -kk)):
                u = self.get(p, q)
                if u is not None and u == (d, False) and (p, q) != (x, y):
                    self.add(p, q, d, True)

    def rel(self, x, y, k):
        """Possible relations of (x - y) to k."""
        if x == y:
            return {'='} if k == 0 else ({'<'} if 0 < k else {'>'})
        r = {'<', '=', '>'}
        u = self.get(x, y)
        if u is not None:
            if u[0] < k or (u[0] == k and u[1]):
                return {'<'}
            if u[0] == k:
                r.discard('>')
        low = self.get(y, x)
        if low is not None:
            if -low[0] > k or (-low[0] == k and low[1]):
                return {'>'}
            if -low[0] == k:
                r.discard('<')
        if (x, y, k) in self.neq or (y, x, -k) in self.neq:
            r.discard('=')
        if self._isint(x, y) and k != math.floor(k):
            r.discard('=')
        return r

    def assume(self, x, y, k, rels):
        """rels: subset of {<,=,>}"""
        rels = frozenset(rels)
        if '<' not in rels:
            self.add(y, x, -k, '=' not in rels)
        if '>' not in rels:
            self.add(x, y, k, '=' not in rels)
        if rels == {'<', '>'}:
            self.neq.add((x, y, k))
            u = self.get(x, y)
            if u == (k, False):
                self.add(x, y, k, True)
            low = self.get(y, x)
            if low == (-k, False):
                self.add(y, x, -k, True)


class Facts:
    def __init__(self):
        self.types = {}
        self.truth = {}
        self.const = {}
        self.notconst = {}
        self.zone = Zone()
        self.symattrs = {}
        self.log = []       # human readable trace of decisions

    def show(self):
        return list(self.log)


def ts_finite(ts):
    return ts.inc is not None


def ts_remove(ts, classes):
    classes = frozenset(classes)
    if ts.inc is not None:
        return TS(ts.inc - classes)
    return TS(None, ts.exc | classes)
