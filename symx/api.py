"""What harnesses use.  Works in two modes:

sym:  inputs are symbolic, conditions are solver terms, Fraction is the proxy class.
conc: inputs come from a recorded counterexample, /repo is imported untouched.
"""
import itertools
import os
import sys

MODE = os.environ.get('SYMX_MODE', 'conc')
REPO = os.environ.get('SYMX_REPO', '/repo')
SYM = MODE == 'sym'

if SYM:
    import z3
    from . import sym as S
    Fraction = S.SFrac
else:
    S = None
    from quicktions import Fraction


class SkipHarness(BaseException):
    """The internal entry point this harness drives is not there (refactored away)."""


class Violation(Exception):
    """Concrete mode only: the property failed."""


def harness_mismatch(ex):
    """True if the harness names an internal of peano that is not there (refactored), i.e. the code did nothing wrong."""
    import re
    import types
    tb = ex.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    fname = tb.tb_frame.f_code.co_filename if tb is not None else ''
    if os.path.join('harness', '') not in fname:
        return False
    if isinstance(ex, ImportError):
        return True
    if isinstance(ex, AttributeError):
        name = getattr(ex, 'name', None) or ''
        return isinstance(getattr(ex, 'obj', None), (types.ModuleType, type)) or (name.startswith('_') and not name.startswith('__'))
    if isinstance(ex, TypeError):
        m = re.match(r'([\w.]+)\(\) (got|missing|takes)', str(ex))
        return bool(m) and any(p.startswith('_') and not p.startswith('__') for p in m.group(1).split('.'))
    return False


# ------------------------------------------------------------ conditions

def _issb(x):
    return SYM and isinstance(x, S.SymBool)


def AND(*cs):
    cs = _flat(cs)
    if any(_issb(c) for c in cs):
        if any((not _issb(c)) and not c for c in cs):
            return False
        return S.SymBool(z3.And([c.e for c in cs if _issb(c)]))
    return all(bool(c) for c in cs)


def OR(*cs):
    cs = _flat(cs)
    if any(_issb(c) for c in cs):
        if any((not _issb(c)) and c for c in cs):
            return True
        return S.SymBool(z3.Or([c.e for c in cs if _issb(c)]))
    return any(bool(c) for c in cs)


def _flat(cs):
    if len(cs) == 1 and not _issb(cs[0]) and not isinstance(cs[0], bool) and hasattr(cs[0], '__iter__'):
        return list(cs[0])
    return list(cs)


def NOT(c):
    if _issb(c):
        return S.SymBool(z3.Not(c.e))
    return not c


def IMP(a, b):
    return OR([NOT(a), b])


def IFF(a, b):
    if _issb(a) or _issb(b):
        a = a.e if _issb(a) else z3.BoolVal(bool(a))
        b = b.e if _issb(b) else z3.BoolVal(bool(b))
        return S.SymBool(a == b)
    return bool(a) == bool(b)


def EQ(a, b):
    """Structural equality of scalars / sequences without branching."""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))):
            return False
        if len(a) != len(b):
            return False
        return AND([EQ(x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    return a == b


def LEXLT(a, b):
    """a < b lexicographically (nested sequences flattened)."""
    a, b = list(flat(a)), list(flat(b))
    assert len(a) == len(b)
    r = False
    for x, y in reversed(list(zip(a, b))):
        r = OR([x < y, AND([x == y, r])])
    return r


def flat(a):
    for x in a:
        if isinstance(x, (tuple, list)):
            yield from flat(x)
        else:
            yield x


def ITE(c, a, b):
    if _issb(c):
        if isinstance(a, (tuple, list)):
            return tuple(ITE(c, x, y) for x, y in zip(a, b))
        return S.merge(c, a, b)
    return a if c else b


def MAX(xs):
    xs = list(xs)
    return S.sym_max(xs) if SYM else max(xs)


def MIN(xs):
    xs = list(xs)
    return S.sym_min(xs) if SYM else min(xs)


# ------------------------------------------------------------ contexts

class Ctx:
    """Common part."""

    def base_map_data(self, name, dim, time_rev=None):
        """Arbitrary (coords, time_rev): an isometry as plain data."""
        perm = self.choose(name + '.perm', list(itertools.permutations(range(dim))))
        flip = self.choose(name + '.flip', list(itertools.product([False, True], repeat=dim)))
        if time_rev is None:
            rev = self.choose(name + '.rev', [False, True])
        else:
            rev = time_rev
        return tuple(zip(perm, flip)), rev

    def base_map(self, name, dim, time_rev=None):
        from peano.base_maps import BaseMap
        coords, rev = self.base_map_data(name, dim, time_rev)
        return BaseMap(coords, rev)


class ConcCtx(Ctx):
    mode = 'conc'

    def __init__(self, values):
        self.values = list(values)
        self.i = 0
        self.checks = 0

    def _next(self, name, kind):
        if self.i >= len(self.values):
            raise RuntimeError('replay: no recorded value for %s' % name)
        n, k, v = self.values[self.i]
        if n != name or k != kind:
            raise RuntimeError('replay: expected %s/%s, recorded %s/%s' % (name, kind, n, k))
        self.i += 1
        return v

    def int(self, name, lo=None, hi=None):
        return self._next(name, 'int')

    def frac(self, name, lo=None, hi=None, D=None):
        v = self._next(name, 'int' if D else 'frac')
        return Fraction(v, D) if D else Fraction(v)

    def bool(self, name):
        return self._next(name, 'bool')

    def choose(self, name, seq):
        seq = list(seq)
        return seq[self._next(name, 'choice')]

    def assume(self, c):
        if not c:
            raise RuntimeError('replay: assumption does not hold')

    def check(self, c, msg):
        self.checks += 1
        if not c:
            raise Violation(msg)


if SYM:
    class SymCtx(Ctx):
        mode = 'sym'

        def __init__(self, engine):
            self.eng = engine

        def int(self, name, lo=None, hi=None):
            e = self.eng.fresh(name, 'int')
            self.eng.inputs.append((name, 'int', e))
            x = S.SymInt(e)
            self._range(x, lo, hi)
            return x

        def _range(self, x, lo, hi):
            cs = []
            if lo is not None:
                cs.append(x >= lo)
            if hi is not None:
                cs.append(x <= hi)
            if cs:
                self.eng.assume(AND(cs))

        def frac(self, name, lo=None, hi=None, D=None):
            """Arbitrary rational (or a multiple of 1/D) in [lo, hi]."""
            if D:
                e = self.eng.fresh(name, 'int')
                self.eng.inputs.append((name, 'int', e))
                x = S.SFrac(g=(e, D))
            else:
                e = self.eng.fresh(name, 'real')
                self.eng.inputs.append((name, 'frac', e))
                x = S.SFrac(e=e)
            self._range(x, lo, hi)
            return x

        def bool(self, name):
            e = self.eng.fresh(name, 'bool')
            self.eng.inputs.append((name, 'bool', e))
            return S.SymBool(e)

        def choose(self, name, seq):
            seq = list(seq)
            i = self.eng.choice(len(seq))
            self.eng.inputs.append((name, 'choice', i))
            return seq[i]

        def assume(self, c):
            self.eng.assume(c)

        def check(self, c, msg):
            self.eng.check(c, msg)


# ------------------------------------------------------------ loading /repo

MODULES = ['utils', 'base_maps', 'subsets', '_cube_path_trees', 'paths', 'curves',
           '_sat_adapters', '_bounded_items_heap', 'dilation', 'gates', 'zoo']


def load_repo():
    """Import peano from /repo's working tree (instrumented in sym mode)."""
    import importlib
    import warnings
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache'
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not SYM:
        mods = [importlib.import_module('peano.' + m) for m in MODULES
                if os.path.exists(os.path.join(REPO, 'peano', m + '.py'))]
        return mods
    import types
    import fractions as real_fractions
    import quicktions as real_q
    shim = types.ModuleType('quicktions')
    shim.Fraction = S.SFrac
    shim.__version__ = real_q.__version__
    shim_f = types.ModuleType('fractions')
    shim_f.__dict__.update({k: v for k, v in real_fractions.__dict__.items() if not k.startswith('__')})
    shim_f.Fraction = S.SFrac
    names = sorted(f[:-3] for f in os.listdir(os.path.join(REPO, 'peano')) if f.endswith('.py') and f != '__init__.py')
    sys.modules['quicktions'] = shim
    sys.modules['fractions'] = shim_f
    try:
        mods = [importlib.import_module('peano')]
        for m in names:
            mods.append(importlib.import_module('peano.' + m))
    finally:
        sys.modules['fractions'] = real_fractions
    for m in mods:
        for name, f in (('max', S.sym_max), ('min', S.sym_min)):
            if name not in m.__dict__:
                m.__dict__[name] = f
    return mods


class StateReset:
    """Restore module- and class-level mutable state before each path."""

    def __init__(self, mods):
        self.snap = []
        self.caches = []
        seen = set()

        def add(obj):
            if isinstance(obj, (dict, list, set)) and id(obj) not in seen:
                seen.add(id(obj))
                self.snap.append((obj, obj.copy()))

        def visit(obj):
            import types
            if hasattr(obj, 'cache_clear'):
                self.caches.append(obj)
                obj = getattr(obj, '__wrapped__', obj)
            if isinstance(obj, (classmethod, staticmethod)):
                obj = obj.__func__
            if isinstance(obj, types.FunctionType):
                for d in (obj.__defaults__ or ()):
                    add(d)
                for d in (obj.__kwdefaults__ or {}).values():
                    add(d)
                for d in vars(obj).values():
                    add(d)

        for m in mods:
            for k, v in list(vars(m).items()):
                if k.startswith('__'):
                    continue
                add(v)
                visit(v)
                if isinstance(v, type) and getattr(v, '__module__', '').startswith('peano'):
                    for k2, v2 in list(vars(v).items()):
                        if k2.startswith('__') and not callable(v2):
                            continue
                        add(v2)
                        visit(v2)

    def __call__(self):
        for obj, copy in self.snap:
            if isinstance(obj, list):
                if obj != copy:
                    obj[:] = copy
            elif len(obj) != len(copy) or obj != copy:
                obj.clear()
                obj.update(copy)
        for c in self.caches:
            c.cache_clear()


def native(script, *args):
    """Run a script on the untouched code in a fresh interpreter (inputs all concrete); returns its output."""
    import subprocess
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=REPO)
    try:
        p = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', script] + [str(a) for a in args], capture_output=True, text=True, env=env, cwd='/', timeout=400)
    except subprocess.TimeoutExpired:
        raise (S.PathTimeout() if SYM else RuntimeError('native run does not end'))
    if p.returncode:
        raise RuntimeError('native run: ' + p.stderr[-600:])
    return p.stdout
