"""C19: the boolean encoding of a fuzzy curve: satisfiable exactly when some curve avoids every forbidden configuration; models decode to such curves."""
import itertools
import random
from symx.api import *
from harness.common import *

FUNCTIONS = ['peano._sat_adapters.CurveSATAdapter.__init__/_load_curve/_copy_from/_make_only/_make_curve_var/_make_junc_var/add_forbid_clause/_append_clause/solve/_get_model/get_model_curve',
             'peano.curves.FuzzyCurve.get_junction_templates/gen_defined_specs/specify']
BOUNDS = ('families: hilbert (16 curves), bauman (512), peano, tokarev, haverkort families with some orientations fixed, beta-omega, ARW, spring; families with a selected pattern; adapters solved before; sets of up to 6 forbidden (junction, partial curve) configurations from tables; '
          'models: every satisfying assignment of the clauses (solver variables); verdict: every curve of the family at up to 5 free positions')
OUTSIDE = 'larger families; the SAT solver itself (pysat Glucose3) is trusted in the verdict harness'
ASSUMPTIONS = ['junctions of a concrete curve as generated by the code (C11 checks them)']


def family(name, fixed):
    base, fuzzy = continuous_family(name)
    fuzzy = spec_of(ref_id(base.dim), base.mult - 1) * fuzzy
    for p, c in fixed:
        fuzzy = fuzzy.specify(p, c, base.patterns[p].specs[c])
    return base, fuzzy


_b = {}


def bundle(name, fixed, fuzzy, i, size):
    """i-th deterministic set of forbidden configurations (junction, partial curve)."""
    key = (name, str(fixed), i, size)
    if key not in _b:
        r = random.Random(97 * i + size)
        auto = list(fuzzy.gen_auto_junctions())
        regular = sorted(fuzzy.get_junction_templates(), key=lambda j: repr(jn_of(j)))
        out = []
        for n in range(size):
            single = r.random() < 0.3
            j = r.choice(auto) if single else r.choice(regular)
            sub = fuzzy
            loose = [(p, c) for p in range(fuzzy.mult) for c in range(fuzzy.genus) if len(list(fuzzy.gen_allowed_specs(p, c))) > 1]
            for p, c in r.sample(loose, min(len(loose), r.choice([2, 2, 3] if single else [0, 1, 1, 2, 2, 3] if n else [1, 2]))):
                opts = sorted(sub.gen_allowed_specs(p, c), key=lambda s: (bmkey(s.base_map), s.pnum))
                sub = sub.specify(p, c, r.choice(opts))
            out.append((j, sub))
        _b[key] = out
    return _b[key]


def specs_of(curve):
    return {(p, c): (bmkey(s.base_map), s.pnum) for p, pat in enumerate(curve.patterns) for c, s in enumerate(pat.specs) if s is not None}


def forbidden(curve, forbids):
    have = specs_of(curve)
    js = set(curve.gen_regular_junctions())
    for j, sub in forbids:
        if (not j.delta_t or j in js) and all(have[q] == s for q, s in specs_of(sub).items()):
            return True
    return False


class Tok:
    """Literal +v or -v of a model; the sign is decided only when the code looks at it."""

    def __init__(self, v, b):
        self.v, self.b = v, b

    def __abs__(self):
        return self.v

    def __int__(self):
        return self.v if self.b else -self.v

    __index__ = __int__

    def __neg__(self):
        return Tok(self.v, NOT(self.b))

    def __gt__(self, o):
        return self.b if o == 0 else int(self) > o

    def __ge__(self, o):
        return self.b if o == 0 else int(self) >= o

    def __lt__(self, o):
        return NOT(self.b) if o == 0 else int(self) < o

    def __le__(self, o):
        return NOT(self.b) if o == 0 else int(self) <= o

    def __eq__(self, o):
        return int(self) == (int(o) if isinstance(o, Tok) else o)

    def __hash__(self):
        return hash(int(self))


def h_models(ctx, name, fixed, sets, size):
    """Every assignment satisfying the clauses decodes to a member of the family that avoids all forbidden configurations."""
    from peano import _sat_adapters
    base, fuzzy = family(name, fixed)
    forbids = bundle(name, fixed, fuzzy, ctx.choose('set', list(range(*sets))), size)
    orig = _sat_adapters.Glucose3

    class Stub:
        """Any model of the clauses."""

        def __init__(self, bootstrap_with=None, **kw):
            self.clauses = []
            if bootstrap_with:
                self.append_formula(bootstrap_with)

        def append_formula(self, f, **kw):
            self.clauses += [list(c) for c in f]

        def add_clause(self, c, **kw):
            self.clauses.append(list(c))

        def solve(self, **kw):
            n = max((abs(l) for c in self.clauses for l in c), default=0)
            self.b = [None] + [ctx.bool('b%d' % v) for v in range(1, n + 1)]
            ctx.assume(AND([OR([self.b[l] if l > 0 else NOT(self.b[-l]) for l in c]) for c in self.clauses]))
            return True

        def get_model(self):
            return [Tok(v, self.b[v]) if SYM else v if self.b[v] else -v for v in range(1, len(self.b))]

        def delete(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    _sat_adapters.Glucose3 = Stub
    try:
        ad = _sat_adapters.CurveSATAdapter(curve=fuzzy)
        for j, sub in forbids:
            ad.add_forbid_clause(j, sub)
        ad.solve()
        got = ad.get_model_curve()
    finally:
        _sat_adapters.Glucose3 = orig
    ctx.check([list(p.proto) for p in got.patterns] == [list(p.proto) for p in fuzzy.patterns], 'prototypes kept')
    for q, s in specs_of(got).items():
        ctx.check(s in [(bmkey(x.base_map), x.pnum) for x in fuzzy.gen_allowed_specs(*q)], 'allowed orientations only')
    ctx.check(got.pnum == fuzzy.pnum, 'selected pattern kept')
    ctx.check(len(specs_of(got)) == fuzzy.mult * fuzzy.genus, 'fully defined curve')
    ctx.check(not forbidden(got, forbids), 'the decoded curve avoids every forbidden configuration')


def h_verdict(ctx, name, fixed, free, sets, size):
    """Pinned to one curve (by forbidding all other orientations) the clauses are satisfiable exactly if that curve is not forbidden."""
    from peano import _sat_adapters
    base, fuzzy = family(name, fixed)
    specs = pick_specs(ctx, fuzzy, base, [tuple(f) for f in free])
    curve = mk_curve(base.dim, base.div, [list(p.proto) for p in base.patterns], specs, fuzzy.pnum)
    forbids = bundle(name, fixed, fuzzy, ctx.choose('set', list(range(*sets))), size)
    how = ctx.choose('how', ['direct', 'copy', 'late copy', 'solved before'])
    A = _sat_adapters.CurveSATAdapter
    first = A(curve=fuzzy)
    ad = first
    if how == 'copy':
        ad = A(adapter=first)
    for j, sub in forbids:
        ad.add_forbid_clause(j, sub)
    if how == 'late copy':
        first, ad = ad, A(adapter=ad)
    if how == 'solved before':
        # asking in between does not change later answers
        before = ad.solve()
        if before:
            ctx.check(not forbidden(ad.get_model_curve(), forbids), 'the decoded curve avoids every forbidden configuration')
    auto = list(fuzzy.gen_auto_junctions())
    pins = []
    for p in range(fuzzy.mult):
        for c in range(fuzzy.genus):
            for s in fuzzy.gen_allowed_specs(p, c):
                if (bmkey(s.base_map), s.pnum) != specs[p][c]:
                    pins.append((auto[(p + c) % len(auto)], fuzzy.specify(p, c, s)))
    for j, sub in pins:
        ad.add_forbid_clause(j, sub)
    bad = forbidden(curve, forbids)
    ok = ad.solve()
    ctx.check(bool(ok) == (not bad), 'satisfiable exactly when the curve is not forbidden')
    if ok:
        ctx.check(ad.get_model_curve() == curve, 'the model is the curve')
    if how == 'copy':
        for j, sub in pins:
            first.add_forbid_clause(j, sub)
        ctx.check(bool(first.solve()), 'forbidding in a copy does not change the original')
    if how == 'late copy':
        everything = [p for p in fuzzy.gen_possible_curves()] if fuzzy.count_possible_curves() <= 600 else None
        if everything is not None:
            ctx.check(bool(first.solve()) == any(not forbidden(c, forbids) for c in everything), 'forbidding in a copy does not change the original; verdict over the whole family')


A4, SP = 'get_ARW_Curve', 'get_spring_curve'
FA = [(p, c) for p in range(4) for c in range(4) if (p, c) not in ((0, 1), (2, 0))]
H, BM, P, B, T, K = 'get_hilbert_curve', 'get_bauman_curve', 'get_peano_curve', 'get_beta_omega_curve', 'get_tokarev_curve', 'get_haverkort_curve_a26'
HARNESSES = [
    {'name': 'models', 'fn': h_models, 'quick': [dict(name=H, fixed=[], sets=(0, 6), size=3), dict(name=H, fixed=[], sets=(6, 12), size=6), dict(name=BM, fixed=[(0, c) for c in (0, 3, 6)], sets=(0, 2), size=4), dict(name=P, fixed=[(0, c) for c in (1, 2, 4, 5, 7, 8)], sets=(0, 2), size=4), dict(name=B, fixed=[], sets=(0, 8), size=1), dict(name=A4, fixed=FA, sets=(0, 2), size=3), dict(name=SP, fixed=[(0, 1), (1, 2), (1, 3), (1, 4), (1, 5)], sets=(0, 2), size=4), dict(name=T, fixed=[(0, c) for c in (1, 2, 4, 5, 6)], sets=(0, 2), size=4)],
     'thorough': [dict(name=H, fixed=[], sets=(12, 80), size=5), dict(name=BM, fixed=[], sets=(0, 4), size=5), dict(name=P, fixed=[(0, c) for c in (1, 4, 5, 7)], sets=(2, 4), size=5), dict(name=T, fixed=[(0, c) for c in (1, 2, 4, 5)], sets=(2, 5), size=6), dict(name=K, fixed=[(0, c) for c in (1, 2, 4, 5)], sets=(2, 5), size=6)], 'path_timeout': 120},
    {'name': 'verdict', 'fn': h_verdict, 'quick': [dict(name=H, fixed=[], free=[(0, c) for c in range(4)], sets=(0, 12), size=4), dict(name=BM, fixed=[], free=[(0, 0), (0, 4), (0, 8)], sets=(0, 6), size=5), dict(name=P, fixed=[], free=[(0, 0), (0, 4)], sets=(0, 3), size=5), dict(name=B, fixed=[], free=[(0, c) for c in range(4)] + [(1, c) for c in range(4)], sets=(0, 12), size=3), dict(name=T, fixed=[], free=[(0, 0), (0, 5)], sets=(0, 3), size=5), dict(name=A4, fixed=FA, free=[(0, 1), (2, 0)], sets=(0, 2), size=5), dict(name=SP, fixed=[(0, 1), (1, 2)], free=[(0, 3), (0, 5), (1, 1), (1, 6)], sets=(0, 3), size=6), dict(name=BM, fixed=[], free=[(0, 1), (0, 5)], sets=(20, 22), size=20)],
     'thorough': [dict(name=H, fixed=[], free=[(0, c) for c in range(4)], sets=(12, 80), size=5), dict(name=BM, fixed=[], free=[(0, c) for c in (0, 2, 4, 6, 8)], sets=(6, 26), size=5), dict(name=P, fixed=[], free=[(0, 0), (0, 4), (0, 7)], sets=(5, 15), size=6), dict(name=T, fixed=[], free=[(0, 0), (0, 5), (0, 7)], sets=(4, 10), size=6), dict(name=K, fixed=[], free=[(0, 0), (0, 3), (0, 7)], sets=(4, 10), size=6)]},
]
