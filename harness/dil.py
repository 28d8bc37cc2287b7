"""Independent reference for dilations: own subdivision of pairs of fractions, own bounds (used by C17..C21)."""
import heapq
import itertools
import random
from fractions import Fraction as F
from symx.api import *
from harness.common import *

# metrics: coefficient of a displacement (non-negative numbers dx), homogeneous of degree d, symmetric, monotone
KINDS = {
    'l1': lambda d, dx: sum(dx)**d,
    'linf': lambda d, dx: max(dx)**d,
    'sum': lambda d, dx: sum(x**d for x in dx),
    'l2': lambda d, dx: sum(x**2 for x in dx)**(d // 2),
    'min': lambda d, dx: min(dx)**d,
    'prod': lambda d, dx: __import__('math').prod(dx),
    'pair': lambda d, dx: max([a + b for a, b in itertools.combinations(dx, 2)] or list(dx))**d,
}


def gauge_coef(kinds, d, dx):
    """('gauge', i, j): min(s_i**d, w*s_j**d) for the sorted displacements s. In dim 2 every symmetric monotone homogeneous
    ratio is a supremum of these, so a pair of fractions matters for some metric exactly when it matters for some w."""
    s = sorted(dx)
    return s[kinds[1]]**d, s[kinds[2]]**d


class Var:
    """A symbolic real in [lo, hi] with the interval still possible on this path."""

    def __init__(self, ctx, name, lo, hi):
        self.lo, self.hi = F(lo), F(hi)
        self.x = ctx.frac(name, Fraction(self.lo.numerator, self.lo.denominator), Fraction(self.hi.numerator, self.hi.denominator))

    def lin(self):
        """The variable as a number for the code under test."""
        return Lin(self, F(0), F(1)) if SYM else self.x

    def sign(self, c0, c1):
        """Sign of c0 + c1*x; forks on the path condition when both are possible."""
        a, b = c0 + c1 * self.lo, c0 + c1 * self.hi
        if a == 0 and b == 0:
            return 0
        if a > 0 and b > 0:
            return 1
        if a < 0 and b < 0:
            return -1
        r = -c0 / c1
        q = Fraction(r.numerator, r.denominator)
        up = 1 if c1 > 0 else -1
        if a != 0 and bool(self.x < q):
            self.hi = r
            return self.open(c0, c1)
        if b != 0 and bool(self.x > q):
            self.lo = r
            return self.open(c0, c1)
        self.lo = self.hi = r
        return 0

    def open(self, c0, c1):
        m = c0 + c1 * (self.lo + self.hi) / 2
        return 1 if m > 0 else -1


def conc(x):
    """Concrete value of an int or rational as fractions.Fraction, or None."""
    if isinstance(x, (int, F)):
        return F(x)
    if SYM:
        if type(x) is S.SFrac:
            return None if x.c is None else F(x.c.numerator, x.c.denominator)
        if not isinstance(x, S.QF):
            return None
    return F(x.numerator, x.denominator) if isinstance(x.numerator, int) else None


class Lin:
    """c0 + c1*x for a Var x: comparisons are decided by the interval when possible, by a fork otherwise."""
    __slots__ = ('v', 'c0', 'c1')

    def __init__(self, v, c0, c1):
        self.v, self.c0, self.c1 = v, c0, c1

    def _sfrac(self):
        return Fraction(self.c0.numerator, self.c0.denominator) + Fraction(self.c1.numerator, self.c1.denominator) * self.v.x

    def _co(self, o):
        if type(o) is Lin:
            return (o.c0, o.c1) if o.v is self.v else None
        c = conc(o)
        return None if c is None else (c, F(0))

    def __add__(self, o):
        c = self._co(o)
        return self._sfrac() + sf(o) if c is None else Lin(self.v, self.c0 + c[0], self.c1 + c[1])

    __radd__ = __add__

    def __neg__(self):
        return Lin(self.v, -self.c0, -self.c1)

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        c = self._co(o)
        if c is None or c[1] and self.c1:
            return self._sfrac() * sf(o)
        if c[1]:
            return Lin(self.v, self.c0 * c[0], self.c0 * c[1])
        return Lin(self.v, self.c0 * c[0], self.c1 * c[0])

    __rmul__ = __mul__

    def __truediv__(self, o):
        c = self._co(o)
        if c is None or c[1]:
            return self._sfrac() / sf(o)
        return Lin(self.v, self.c0 / c[0], self.c1 / c[0])

    def __rtruediv__(self, o):
        return sf(o) / self._sfrac()

    def __pow__(self, n):
        r = 1
        for _ in range(n):
            r = r * self
        return r

    def __abs__(self):
        return -self if self < 0 else self

    def __bool__(self):
        return self != 0

    def __hash__(self):
        return hash((self.c0, self.c1)) if self.c1 else hash(self.c0)

    def __float__(self):
        return float(self.c0 + self.c1 * (self.v.lo + self.v.hi) / 2)

    def __repr__(self):
        return '%s+%s*w' % (self.c0, self.c1)

    def _sgn(self, o):
        c = self._co(o)
        return None if c is None else self.v.sign(self.c0 - c[0], self.c1 - c[1])

    def __lt__(self, o):
        s = self._sgn(o)
        return self._sfrac() < sf(o) if s is None else s < 0

    def __le__(self, o):
        s = self._sgn(o)
        return self._sfrac() <= sf(o) if s is None else s <= 0

    def __gt__(self, o):
        s = self._sgn(o)
        return self._sfrac() > sf(o) if s is None else s > 0

    def __ge__(self, o):
        s = self._sgn(o)
        return self._sfrac() >= sf(o) if s is None else s >= 0

    def __eq__(self, o):
        if o is None:
            return False
        s = self._sgn(o)
        return self._sfrac() == sf(o) if s is None else s == 0

    def __ne__(self, o):
        return not self == o


def sf(x):
    """Solver term of a number."""
    if type(x) is Lin:
        return x._sfrac()
    if isinstance(x, F):
        return Fraction(x.numerator, x.denominator)
    return x


class Endless(Exception):
    """The estimate used far more evaluations than any sensible run."""


def mixed(kinds, w, limit=1500000 if SYM else 3000000):
    """ratio function (1-w)*kind0 + w*kind1; w a Var."""
    count = [0]
    if kinds[0] == 'gauge':
        def gauge(d, dx, dt):
            count[0] += 1
            if count[0] > limit:
                raise Endless()
            u, v = gauge_coef(kinds, d, [abs(x) for x in dx])
            if not SYM:
                return min(u, v * w.x) / dt
            u, v, q = conc(u), conc(v), conc(dt)
            # which of u, v*w is less is decided by the interval of w, or forks
            return Lin(w, u / q, F(0)) if w.sign(-u, v) >= 0 else Lin(w, F(0), v / q)
        return gauge
    f, g = KINDS[kinds[0]], KINDS[kinds[1]]

    def ratio(d, dx, dt):
        count[0] += 1
        if count[0] > limit:
            raise Endless()
        a = [abs(x) for x in dx]
        u, v = f(d, a), g(d, a)
        if SYM:
            u, v, q = conc(u), conc(v), conc(dt)
            return Lin(w, u / q, (v - u) / q)
        return (u + (v - u) * w.x) / dt
    return ratio


def zoo_curve(name):
    from peano import zoo
    c = getattr(zoo, name)()
    return getattr(c, 'curve', c)


_fam = {}


def member(name, i):
    """i-th curve of the family of curves with the gates of a zoo curve (0: the zoo curve itself), as a real curve."""
    if i == 0:
        return zoo_curve(name)
    if (name, i) not in _fam:
        base, fuzzy = continuous_family(name)
        r = random.Random(1000 + i)
        specs = [[r.choice(sorted((bmkey(s.base_map), s.pnum) for s in fuzzy.gen_allowed_specs(p, c))) for c in range(base.genus)] for p in range(base.mult)]
        _fam[name, i] = mk_curve(base.dim, base.div, [list(p.proto) for p in base.patterns], specs)
    return _fam[name, i]


class Half:
    """A fraction: integer cube (depth n grid), integer time, orientation."""
    __slots__ = ('n', 'x', 't', 's')

    def __init__(self, n, x, t, s):
        self.n, self.x, self.t, self.s = n, x, t, s

    def split(self, plain):
        for i, (c, s) in enumerate(plain.level1(*self.s)):
            yield Half(self.n + 1, tuple(a * plain.div + b for a, b in zip(self.x, c)), self.t * plain.genus + i, s)


def coefs(plain, kinds, a, b):
    """(lower, upper) coefficient pairs of the ratio sup over the two fractions (b after a), exact rationals."""
    d, N, G = plain.dim, plain.div, plain.genus
    n = max(a.n, b.n)
    fa, fb = N**(n - a.n), N**(n - b.n)
    dx = [max(abs((y + 1) * fb - x * fa), abs((x + 1) * fa - y * fb)) for x, y in zip(a.x, b.x)]
    ga, gb = G**(n - a.n), G**(n - b.n)
    far = (b.t + 1) * gb - a.t * ga
    near = b.t * gb - (a.t + 1) * ga
    v = coef_of(kinds, d, dx)
    return tuple(F(q, far) for q in v), tuple(F(q, near) for q in v)


def coef_of(kinds, d, dx):
    """Coefficients of the metric: (m0, m1) of (1-w)*m0 + w*m1, or (m0, m1, 0) of min(m0, w*m1)."""
    if kinds[0] == 'gauge':
        return gauge_coef(kinds, d, dx) + (0,)
    return tuple(KINDS[k](d, dx) for k in kinds)


def start_pairs(plain):
    """Non-adjacent first-order pairs inside every pattern and across every junction."""
    out = []
    ident = ref_id(plain.dim)
    for p in range(len(plain.patterns)):
        fs = list(Half(0, (0,) * plain.dim, 0, (ident, p)).split(plain))
        out += [(a, b) for i, a in enumerate(fs) for b in fs[i + 2:]]
    cls, _ = jn_all(plain)
    for s1, s2, dx in cls:
        fa = list(Half(0, (0,) * plain.dim, 0, s1).split(plain))
        fb = list(Half(0, tuple(dx), 1, s2).split(plain))
        out += [(a, b) for a in fa for b in fb if b.t - a.t > 1]
    return out


def envelope(fs):
    """Keep the functions c0*(1-w)+c1*w that are maximal for some w in [0,1]."""
    fs = sorted(set(fs), reverse=True)
    out = []
    best = None
    for f in fs:
        if best is None or f[1] > best:
            out.append(f)
            best = f[1]
    if fs and len(fs[0]) == 3:
        return out
    hull = []
    for f in out:
        while len(hull) >= 2:
            a, b = hull[-2], hull[-1]
            if (b[1] - a[1]) * (a[0] - f[0]) > (f[1] - a[1]) * (a[0] - b[0]):
                break
            hull.pop()      # under the segment from a to f
        hull.append(f)
    return hull


def at(f, w):
    if len(f) == 3:
        return min(f[0], f[1] * w)
    return f[0] + (f[1] - f[0]) * w


def bounds_of(plain, kinds, tol=F(1, 20), maxn=6000):
    """Lower and upper envelopes of the dilation as a function of the weight."""
    ws = [F(i, 16) for i in range(1, 17)] if kinds[0] == 'gauge' else [F(i, 4) for i in range(5)]
    lows, final = [], []
    pairs = [(a, b, *coefs(plain, kinds, a, b)) for a, b in start_pairs(plain)]
    lows = [p[2] for p in pairs]
    n = 0
    while True:
        lows = envelope(lows)
        best = [max(at(f, w) for f in lows) for w in ws]
        keep, todo = [], []
        for p in pairs:
            if any(at(p[3], w) > b * (1 + tol) for w, b in zip(ws, best)):
                todo.append(p)
            else:
                keep.append(p)
        final += keep
        if not todo or n > maxn:
            final += todo
            break
        pairs = []
        for a, b, _, _ in todo:
            if a.n > b.n:
                new = [(a, c) for c in b.split(plain)]
            else:
                new = [(c, b) for c in a.split(plain)]
            for x, y in new:
                lo, up = coefs(plain, kinds, x, y)
                pairs.append((x, y, lo, up))
                lows.append(lo)
                n += 1
    return lows, envelope([p[3] for p in final])


_refs = {}


def reference(name, kinds, tol=F(1, 20), curve=None):
    key = (name, tuple(kinds), tol)
    if name is None or key not in _refs:
        _refs[key] = bounds_of(Plain.of(curve if curve is not None else zoo_curve(name)), tuple(kinds), tol)
    return _refs[key]


def val(f, w):
    a, b = Fraction(f[0].numerator, f[0].denominator), Fraction(f[1].numerator, f[1].denominator)
    if len(f) == 3:
        return MIN([a, b * w.x])
    return a + (b - a) * w.x


def bracket(ctx, res, ref, w):
    lows, ups = ref
    lo, up = sf(res['lo']), sf(res['up'])
    ctx.check(AND([up >= val(f, w) for f in lows]), 'upper bound is not below the dilation')
    ctx.check(OR([lo <= val(f, w) for f in ups]), 'lower bound is not above the dilation')
    ctx.check(lo <= up, 'lower bound does not exceed the upper bound')
