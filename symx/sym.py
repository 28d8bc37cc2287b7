"""Symbolic values (z3-backed proxies) and the path-exploring engine.

The code under test is the real /repo source run by CPython; its inputs are the
proxies below.  Every data-dependent branch reaches Engine.decide (through
__bool__, __index__, __hash__ ...), which asks the solver which sides are
feasible, takes one and remembers the other.  A harness is run once per path
until no side is left, so together the paths cover every input in the bounds.
"""
import os
import signal
import time

import z3
import quicktions as _q
from fractions import Fraction as _RF

QF = _q.Fraction
HASH_CONST = 0x5EED


class PathEnd(BaseException):
    """Path is infeasible (an assumption failed)."""


class PathTimeout(BaseException):
    pass


class Unsupported(Exception):
    """The proxies cannot express an operation."""


class Found(BaseException):
    """Counterexample candidate."""
    def __init__(self, msg, kind='check', detail=''):
        self.msg, self.kind, self.detail = msg, kind, detail


class OutOfBudget(BaseException):
    pass


ENG = None  # current engine


def eng():
    return ENG


# ---------------------------------------------------------------- engine

class Engine:
    def __init__(self, branch_timeout_ms=20000, query_timeout_ms=60000):
        self.solver = z3.Solver()
        self.solver.set('timeout', branch_timeout_ms)
        self.query_timeout_ms = query_timeout_ms
        self.prefix = []     # events to replay
        self.trail = []      # events of current path
        self.pos = 0
        self.inputs = []     # (name, kind, z3 expr or python value) in declaration order
        self.memo = {}
        self.keep = []
        self.counter = 0
        self.opaque_hash = False
        self.str_values = False
        self.deadline = None
        self.frac_mode = 'const'
        self.st = dict(paths=0, infeasible=0, queries=0, branch_queries=0, discharged=0, trivial=0,
                       unknown=0, solver_s=0.0, decisions=0, reach=0, unsupported=0)
        self.notes = []

    # -- solver helpers
    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.st['solver_s'] += time.time() - t
        self.st['branch_queries'] += 1
        return r

    # -- events: [kind, value, n_alternatives_left(info), pushed, extra]
    def _replaying(self):
        return self.pos < len(self.prefix)

    def _next_event(self):
        ev = self.prefix[self.pos]
        self.pos += 1
        self.trail.append(ev)
        return ev

    def _push(self, e):
        self.solver.push()
        self.solver.add(e)

    def decide(self, e):
        if e is True or e is False:
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        if key in self.memo:
            return self.memo[key]
        self.st['decisions'] += 1
        if self._replaying():
            ev = self._next_event()
            assert ev[0] == 'b', 'nondeterministic replay'
            val = ev[1]
        else:
            if self.deadline and time.time() > self.deadline:
                raise OutOfBudget()
            rt = self._check(e)
            ne = z3.Not(e)
            if rt == z3.unsat:
                val, opened, pushed = False, 0, 0
            else:
                rf = self._check(ne)
                if rf == z3.unsat:
                    val, opened, pushed = True, 0, 0
                else:
                    val, opened, pushed = True, 1, 1
                    self._push(e)
            self.trail.append(['b', val, opened, pushed, ne])
            self.pos += 1
            self.prefix.append(self.trail[-1])
        self.memo[key] = val
        n = z3.simplify(z3.Not(e))
        self.memo[n.get_id()] = not val
        self.keep.append((e, n))
        return val

    def concretize(self, e):
        """Case-split an integer expression over all its feasible values."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        key = ('v', e.get_id())
        if key in self.memo:
            return self.memo[key]
        self.keep.append(e)
        while True:
            self.st['decisions'] += 1
            if self._replaying():
                ev = self._next_event()
                assert ev[0] == 'v', 'nondeterministic replay'
                v, val = ev[4][0], ev[1]
            else:
                if self.deadline and time.time() > self.deadline:
                    raise OutOfBudget()
                r = self._check()
                if r == z3.unsat:
                    raise PathEnd()
                if r == z3.unknown:
                    raise Unsupported('unknown while concretizing')
                v = self.solver.model().eval(e, model_completion=True).as_long()
                other = self._check(e != v)
                val = True
                pushed = 1
                self._push(e == v)
                self.trail.append(['v', True, 0 if other == z3.unsat else 1, pushed, (v, e != v)])
                self.prefix.append(self.trail[-1])
                self.pos += 1
            if val:
                self.memo[key] = v
                return v

    def choice(self, n):
        if n <= 0:
            raise PathEnd()
        if n == 1:
            return 0
        if self._replaying():
            ev = self._next_event()
            assert ev[0] == 'c', 'nondeterministic replay'
            return ev[1]
        if self.deadline and time.time() > self.deadline:
            raise OutOfBudget()
        self.trail.append(['c', 0, n - 1, 0, n])
        self.prefix.append(self.trail[-1])
        self.pos += 1
        return 0

    def assume(self, c):
        if isinstance(c, SymBool):
            e = z3.simplify(c.e)
            if z3.is_true(e):
                return
            if z3.is_false(e):
                raise PathEnd()
            if self._replaying():
                ev = self._next_event()
                assert ev[0] == 'a', 'nondeterministic replay'
                return
            self._push(e)
            self.trail.append(['a', True, 0, 1, None])
            self.prefix.append(self.trail[-1])
            self.pos += 1
            if self._check() == z3.unsat:
                raise PathEnd()
        elif not c:
            raise PathEnd()

    def check(self, c, msg):
        """Assert a property on this path."""
        if isinstance(c, SymBool):
            if self._replaying():
                return
            e = z3.simplify(c.e)
            if z3.is_true(e):
                self.st['trivial'] += 1
                self.st['queries'] += 1
                self.st['discharged'] += 1
                return
            self.st['queries'] += 1
            t = time.time()
            self.solver.push()
            self.solver.add(z3.Not(e))
            r = self.solver.check()
            if r == z3.unknown:
                r = self._retry()
            self.st['solver_s'] += time.time() - t
            if r == z3.unsat:
                self.solver.pop()
                self.st['discharged'] += 1
                return
            if r == z3.sat:
                raise Found(msg)      # solver keeps the negated property for model extraction
            self.solver.pop()
            self.st['unknown'] += 1
            self.notes.append('unknown: ' + msg)
        else:
            if self._replaying():
                return
            self.st['queries'] += 1
            if c:
                self.st['discharged'] += 1
                self.st['trivial'] += 1
                return
            r = self._check()
            if r == z3.unsat:
                raise PathEnd()
            raise Found(msg)

    def _retry(self):
        for tac in ('qfnra-nlsat', 'smt'):
            try:
                s = z3.Tactic(tac).solver()
                s.set('timeout', self.query_timeout_ms)
                s.add(self.solver.assertions())
                r = s.check()
                if r == z3.unsat:
                    return r
                if r == z3.sat:
                    self._retry_model = s.model()
                    return r
            except z3.Z3Exception:
                pass
        return z3.unknown

    # -- inputs
    def fresh(self, name, sort):
        self.counter += 1
        full = '%s!%d' % (name, self.counter)
        return {'int': z3.Int, 'real': z3.Real, 'bool': z3.Bool}[sort](full)

    def model_values(self):
        """Concrete value for each input, in declaration order."""
        m = None
        if self._check() == z3.sat:
            m = self.solver.model()
        else:
            m = getattr(self, '_retry_model', None)
        out = []
        for name, kind, e in self.inputs:
            if kind == 'choice':
                out.append([name, 'choice', e])
                continue
            if m is None:
                return None
            v = m.eval(e, model_completion=True)
            if kind == 'bool':
                out.append([name, 'bool', bool(z3.is_true(v))])
            elif kind == 'int':
                out.append([name, 'int', v.as_long()])
            else:
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                out.append([name, 'frac', str(v.as_fraction())])
        return out

    # -- path control
    def begin_path(self):
        self.trail = []
        self.pos = 0
        self.inputs = []
        self.memo = {}
        self.keep = []
        self.counter = 0

    def backtrack(self):
        """Prepare the next path; False when the space is exhausted."""
        tr = self.prefix
        while tr:
            ev = tr[-1]
            if ev[3]:
                self.solver.pop()
            if ev[2] > 0:
                if ev[0] == 'c':
                    ev = ['c', ev[1] + 1, ev[2] - 1, 0, ev[4]]
                elif ev[0] == 'b':
                    ne = ev[4]
                    self._push(ne)
                    ev = ['b', not ev[1], 0, 1, None]
                else:
                    self._push(ev[4][1])
                    ev = ['v', False, 0, 1, ev[4]]
                tr[-1] = ev
                return True
            tr.pop()
        return False

    def reset_solver_levels(self):
        """Drop a negated property left by check()."""
        want = sum(1 for ev in self.prefix if ev[3])
        have = self.solver.num_scopes()
        if have > want:
            self.solver.pop(have - want)


# ---------------------------------------------------------------- values

def _infinite(x):
    return isinstance(x, float) and (x != x or x in (float('inf'), -float('inf')))


def _int_e(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return None


class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.decide(self.e)

    @staticmethod
    def _b(o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, bool):
            return z3.BoolVal(o)
        if isinstance(o, int) and o in (0, 1):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.And(self.e, b))
    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.Or(self.e, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        return NotImplemented if b is None else SymBool(z3.Xor(self.e, b))
    __rxor__ = __xor__

    def __eq__(self, o):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return SymBool(self.e == b)

    def __ne__(self, o):
        b = self._b(o)
        if b is None:
            return NotImplemented
        return SymBool(self.e != b)

    def _i(self):
        return SymInt(_int_e(self))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __gt__(self, o):
        return self._i() > o

    def __le__(self, o):
        return self._i() <= o

    def __ge__(self, o):
        return self._i() >= o

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return '<SymBool>'


class SymInt:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _arith(self, o, f):
        x = _int_e(o)
        if x is None:
            if isinstance(o, (float, _RF)) and not _infinite(o):
                return SFrac(e=f(z3.ToReal(self.e), SFrac._co(o).e))
            return NotImplemented
        return SymInt(f(self.e, x))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._arith(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (tuple, list, str)):
            return o * self.__index__()
        return self._arith(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (tuple, list, str)):
            return o * self.__index__()
        return self._arith(o, lambda a, b: b * a)

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    @staticmethod
    def _fdiv(a, b):
        """Python floor division of z3 ints."""
        bs = z3.simplify(b)
        if z3.is_int_value(bs):
            v = bs.as_long()
            if v == 0:
                raise ZeroDivisionError
            return (a / bs) if v > 0 else (-a) / z3.IntVal(-v)
        if ENG.decide(b == 0):
            raise ZeroDivisionError
        if ENG.decide(b > 0):
            return a / b
        return (-a) / (-b)

    def __floordiv__(self, o):
        x = _int_e(o)
        if x is None:
            return NotImplemented
        return SymInt(self._fdiv(self.e, x))

    def __rfloordiv__(self, o):
        x = _int_e(o)
        if x is None:
            return NotImplemented
        return SymInt(self._fdiv(x, self.e))

    def __mod__(self, o):
        x = _int_e(o)
        if x is None:
            return NotImplemented
        return SymInt(self.e - self._fdiv(self.e, x) * x)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        x = _int_e(o)
        if x is None:
            return NotImplemented
        return SymInt(x - self._fdiv(x, self.e) * self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return SFrac(self) / o

    def __rtruediv__(self, o):
        return SFrac(o) / self

    def __pow__(self, o, mod=None):
        if isinstance(o, SymInt):
            o = o.__index__()
        if not isinstance(o, int):
            return NotImplemented
        if o < 0:
            return SFrac(1) / (self ** (-o))
        r = 1
        for _ in range(o):
            r = self * r
        return r if o else 1

    def __rpow__(self, o):
        return o ** self.__index__()

    def _cmp(self, o, f):
        x = _int_e(o)
        if x is None:
            if isinstance(o, (float, _RF)):
                if _infinite(o):
                    return f(0, o)
                return SymBool(f(z3.ToReal(self.e), SFrac._co(o).e))
            return NotImplemented
        return SymBool(f(self.e, x))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is self:
            return True
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is self:
            return False
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return ENG.decide(self.e != 0)

    def __index__(self):
        return ENG.concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        if ENG.opaque_hash:
            return HASH_CONST
        return hash(self.__index__())

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __trunc__(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def __repr__(self):
        if ENG.str_values:
            return str(self.__index__())
        return '<SymInt>'

    def __format__(self, spec):
        if ENG.str_values:
            return format(self.__index__(), spec)
        return '<SymInt>'


def _lcm(a, b):
    import math
    return a * b // math.gcd(a, b)


class _FracMeta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or isinstance(x, QF)


class SFrac(metaclass=_FracMeta):
    """Stand-in for quicktions.Fraction: exact rational, concrete or symbolic.

    c: concrete value or None.  g: (n, D) with n a z3 Int and D a positive int when the
    value is known to lie on the grid n/D.  e: z3 Real (built on demand for grids).
    """
    __slots__ = ('c', 'g', '_e')

    def __new__(cls, num=0, den=None, *, c=None, g=None, e=None):
        self = object.__new__(cls)
        self.c = self.g = self._e = None
        if c is not None or g is not None or e is not None:
            self.c, self.g, self._e = c, g, e
            return self
        if den is None:
            if type(num) is SFrac:
                return num
            if isinstance(num, QF):
                self.c = num
                return self
            if isinstance(num, SymBool):
                num = num._i()
            if isinstance(num, SymInt):
                self.g = (num.e, 1)
                return self
            if hasattr(num, '_sfrac'):
                return num._sfrac()
            self.c = QF(num)
            return self
        if isinstance(num, (int, QF)) and isinstance(den, (int, QF)) and not isinstance(num, SFrac) and not isinstance(den, SFrac):
            self.c = QF(num, den)
            return self
        return SFrac(num) / SFrac(den)

    # -- representation
    @property
    def e(self):
        if self._e is None:
            if self.c is not None:
                self._e = z3.Q(self.c.numerator, self.c.denominator)
            else:
                n, D = self.g
                r = z3.ToReal(n)
                self._e = r if D == 1 else r / z3.RealVal(D)
        return self._e

    @staticmethod
    def _co(o):
        if type(o) is SFrac:
            return o
        if isinstance(o, (int, QF, SymInt, SymBool)):
            return SFrac(o)
        if isinstance(o, (float, _RF)):
            return SFrac(c=QF(o.numerator, o.denominator) if isinstance(o, _RF) else QF(o))
        return None

    def _grid(self):
        if self.g is not None:
            return self.g
        if self.c is not None:
            return (z3.IntVal(self.c.numerator), self.c.denominator)
        return None

    def _is_sym(self):
        return self.c is None

    # -- arithmetic
    def _add(self, o, sgn):
        if self.c is not None and o.c is not None:
            return SFrac(c=self.c + o.c if sgn > 0 else self.c - o.c)
        a, b = self._grid(), o._grid()
        if a is not None and b is not None:
            D = _lcm(a[1], b[1])
            x = a[0] * (D // a[1]) if D != a[1] else a[0]
            y = b[0] * (D // b[1]) if D != b[1] else b[0]
            return SFrac(g=(z3.simplify(x + y if sgn > 0 else x - y), D))
        return SFrac(e=self.e + o.e if sgn > 0 else self.e - o.e)

    def __add__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self._add(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self._add(o, -1)

    def __rsub__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o._add(self, -1)

    def __mul__(self, o):
        if isinstance(o, (tuple, list, str)):
            return NotImplemented
        o = self._co(o)
        if o is None:
            return NotImplemented
        if self.c is not None and o.c is not None:
            return SFrac(c=self.c * o.c)
        if self.c is not None:
            return o * self
        if o.c is not None:
            if self.g is not None:
                n, D = self.g
                q = o.c
                if q == 0:
                    return SFrac(c=QF(0))
                return SFrac(g=(z3.simplify(n * q.numerator), D * q.denominator))
            return SFrac(e=self.e * o.e)
        if self.g is not None and o.g is not None:
            return SFrac(g=(self.g[0] * o.g[0], self.g[1] * o.g[1]))
        return SFrac(e=self.e * o.e)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if o.c is not None:
            if o.c == 0:
                raise ZeroDivisionError('Fraction(_, 0)')
            if self.c is not None:
                return SFrac(c=self.c / o.c)
            return self * SFrac(c=1 / o.c)
        if o == 0:
            raise ZeroDivisionError('Fraction(_, 0)')
        return SFrac(e=self.e / o.e)

    def __rtruediv__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o / self

    def __floor__(self):
        if self.c is not None:
            return self.c.numerator // self.c.denominator
        if self.g is not None:
            n, D = self.g
            return SymInt(n / z3.IntVal(D))
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        return self.__floor__() if self >= 0 else self.__ceil__()

    def __int__(self):
        t = self.__trunc__()
        return t if isinstance(t, int) else t.__index__()

    def __floordiv__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else (self / o).__floor__()

    def __rfloordiv__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else (o / self).__floor__()

    def __mod__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else self - o * (self // o)

    def __rmod__(self, o):
        o = self._co(o)
        return NotImplemented if o is None else o % self

    def __pow__(self, n):
        if isinstance(n, SymInt):
            n = n.__index__()
        if type(n) is SFrac and n.c is not None and n.c.denominator == 1:
            n = int(n.c)
        if not isinstance(n, int):
            return NotImplemented
        if self.c is not None:
            return SFrac(c=QF(self.c ** n))
        if n < 0:
            return SFrac(1) / self ** (-n)
        r = SFrac(1)
        for _ in range(n):
            r = r * self
        return r

    def __rpow__(self, o):
        if self.c is not None and self.c.denominator == 1:
            return o ** int(self.c)
        raise Unsupported('fractional power')

    def __neg__(self):
        if self.c is not None:
            return SFrac(c=-self.c)
        if self.g is not None:
            return SFrac(g=(-self.g[0], self.g[1]))
        return SFrac(e=-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.c is not None:
            return SFrac(c=abs(self.c))
        if self.g is not None:
            n, D = self.g
            return SFrac(g=(z3.If(n >= 0, n, -n), D))
        return SFrac(e=z3.If(self.e >= 0, self.e, -self.e))

    # -- comparison
    @staticmethod
    def _inf(o, f):
        return f(0, o)

    def _cmp(self, o, fc, fz):
        if self.c is not None and o.c is not None:
            return fc(self.c, o.c)
        a, b = self._grid(), o._grid()
        if a is not None and b is not None:
            D = _lcm(a[1], b[1])
            x = a[0] * (D // a[1]) if D != a[1] else a[0]
            y = b[0] * (D // b[1]) if D != b[1] else b[0]
            return SymBool(fz(x, y))
        return SymBool(fz(self.e, o.e))

    def __lt__(self, o):
        if _infinite(o):
            return self._inf(o, lambda a, b: a < b)
        o = self._co(o)
        return NotImplemented if o is None else self._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(self, o):
        if _infinite(o):
            return self._inf(o, lambda a, b: a <= b)
        o = self._co(o)
        return NotImplemented if o is None else self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(self, o):
        if _infinite(o):
            return self._inf(o, lambda a, b: a > b)
        o = self._co(o)
        return NotImplemented if o is None else self._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(self, o):
        if _infinite(o):
            return self._inf(o, lambda a, b: a >= b)
        o = self._co(o)
        return NotImplemented if o is None else self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is self:
            return True
        if _infinite(o):
            return False
        o = self._co(o)
        return NotImplemented if o is None else self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        if o is self:
            return False
        if _infinite(o):
            return True
        o = self._co(o)
        return NotImplemented if o is None else self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if ENG is None or ENG.frac_mode == 'value':
            if self.c is not None:
                return hash(self.c)
            if self.g is not None:
                return hash(QF(ENG.concretize(self.g[0]), self.g[1]))
            raise Unsupported('hash of a symbolic real')
        return HASH_CONST

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        if self.g is not None:
            return ENG.concretize(self.g[0]) / self.g[1]
        raise Unsupported('float of a symbolic real')

    def _den(self):
        """Denominator in lowest terms, by case split."""
        if self.g is None:
            key = ('den', self.e.get_id())
            if key not in ENG.memo:
                ENG.keep.append(self.e)
                d = ENG.choice(25) + 1
                if d == 25:
                    raise Unsupported('denominator of a symbolic real above 24')
                n = z3.Int('num!%d' % len(ENG.keep))
                ENG.assume(SymBool(z3.And([self.e * d == z3.ToReal(n)] + [n % p != 0 for p in (2, 3, 5, 7, 11, 13, 17, 19, 23) if d % p == 0])))
                ENG.memo[key] = (n, d)
            self.g = ENG.memo[key]
        n, D = self.g
        for d in range(1, D + 1):
            if D % d == 0 and (d == D or ENG.decide(n % (D // d) == 0)):
                return d

    @property
    def numerator(self):
        if self.c is not None:
            return self.c.numerator
        den = self._den()
        q = self.g[1] // den
        return SymInt(self.g[0] if q == 1 else z3.simplify(self.g[0] / z3.IntVal(q)))

    @property
    def denominator(self):
        if self.c is not None:
            return self.c.denominator
        return self._den()

    def as_integer_ratio(self):
        return self.numerator, self.denominator

    def is_integer(self):
        return self.denominator == 1

    def limit_denominator(self, m=10**6):
        if self.c is not None:
            return SFrac(c=self.c.limit_denominator(m))
        return self

    def __str__(self):
        if self.c is None and ENG is not None and ENG.str_values and self.g is not None:
            return str(QF(ENG.concretize(self.g[0]), self.g[1]))
        return str(self.c) if self.c is not None else '<SymFrac>'

    def __repr__(self):
        return repr(self.c) if self.c is not None else '<SymFrac>'

    def __format__(self, spec):
        return format(float(self.c), spec) if self.c is not None and spec else str(self)

    def __reduce__(self):
        return (SFrac, (str(self.c),))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def is_sym(x):
    return isinstance(x, (SymInt, SymBool)) or (type(x) is SFrac and x.c is None)


def is_num(x):
    return isinstance(x, (int, SymInt, SymBool, QF)) or type(x) is SFrac


def merge(cond, a, b):
    """z3 if-then-else on scalars; cond is a SymBool."""
    if isinstance(a, SymBool) or isinstance(b, SymBool) or isinstance(a, bool):
        return SymBool(z3.If(cond.e, SymBool._b(a), SymBool._b(b)))
    if type(a) is SFrac or type(b) is SFrac or isinstance(a, QF) or isinstance(b, QF):
        a, b = SFrac(a), SFrac(b)
        ga, gb = a._grid(), b._grid()
        if ga is not None and gb is not None:
            D = _lcm(ga[1], gb[1])
            return SFrac(g=(z3.If(cond.e, ga[0] * (D // ga[1]), gb[0] * (D // gb[1])), D))
        return SFrac(e=z3.If(cond.e, a.e, b.e))
    return SymInt(z3.If(cond.e, _int_e(a), _int_e(b)))


_max, _min = max, min


def _minmax(builtin, gt):
    def f(*args, **kw):
        if kw or not args:
            return builtin(*args, **kw)
        if len(args) == 1:
            items = list(args[0])
            if not items:
                return builtin(items)
        else:
            items = list(args)
        if len(items) > 1 and all(is_num(x) for x in items) and any(is_sym(x) for x in items):
            r = items[0]
            for x in items[1:]:
                c = (x > r) if gt else (x < r)
                if isinstance(c, SymBool):
                    r = merge(c, x, r)
                elif c:
                    r = x
            return r
        return builtin(items)
    return f


sym_max = _minmax(_max, True)
sym_min = _minmax(_min, False)
