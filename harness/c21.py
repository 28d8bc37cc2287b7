"""C21: the estimates of the best dilation of a fuzzy curve and of a sequence of fuzzy curves bracket the true minimum."""
import itertools
from symx.api import *
from harness.common import *
from harness.dil import *
from harness.c20 import curves_in, spec_key, kept, refs, fixed_ratio, FX, H, BM, P, B, CO

FUNCTIONS = ['peano.dilation.Estimator.estimate_dilation_fuzzy', 'peano.dilation.Estimator.estimate_dilation_sequence', 'and below them, in the direct harnesses: bisect_dilation_fuzzy, estimate_dilation_regular, _create_tree, BoundedItemsHeap.copy_and_cleanup, CurveSATAdapter']
BOUNDS = ('fuzzy: hidden minimum, start bounds, stop bound symbolic reals in [1,16], every outcome of the threshold test that its contract (C20) allows, dilation of each returned curve symbolic, tolerance 1..6, iterations running out at any call; '
          'sequence: 1..3 curves, hidden minima symbolic reals, every outcome of the single-curve estimate that its contract allows, tolerance 1..20, multiplier 2..8, optional symbolic upper bound, list or generator; '
          'direct runs of both on families of 2..64 curves with a symbolic metric weight (norms and gauges)')
OUTSIDE = 'upper_bound below the minimal dilation (result unspecified by the documentation except that None is allowed); longer sequences'
ASSUMPTIONS = ['contract of bisect_dilation_fuzzy (C20) and of estimate_dilation_regular (C18)', 'a start curve, if given, has dilation between the start bounds']


class Token:
    """Stands for a regular curve with dilation d, found in fuzzy curve src."""

    def __init__(self, src, d):
        self.src, self.d = src, d

    def __str__(self):
        return 'curve'


class Curve0:
    """A fuzzy curve that can be handed to the set-up code but is never looked at afterwards."""


def h_fuzzy(ctx, tol, start, stop=False, out=False, maxcalls=40):
    """All outcomes of the threshold test; start: 'none', 'lower', 'both', 'upper'."""
    from peano.dilation import Estimator
    fuzzy = small()
    m = ctx.frac('min', Fraction(1), Fraction(16))
    n = [0]

    class Est(Estimator):
        def estimate_dilation_regular(self, curve, **kw):
            d = ctx.frac('d_example', Fraction(1), Fraction(16))
            up = ctx.frac('up_example', Fraction(1), Fraction(20))
            ctx.assume(m <= d)
            ctx.assume(d <= up)
            self.example = Token(fuzzy, d)
            self.example_curve = curve
            return {'lo': d, 'up': up, 'argmax': None}

        def bisect_dilation_fuzzy(self, curve, good_threshold=None, bad_threshold=None, **kw):
            i = n[0]
            n[0] += 1
            if i >= maxcalls:
                ctx.check(False, 'the bisection ends')
                raise Endless()
            ctx.check(curve is fuzzy, 'the given fuzzy curve is tested')
            ctx.check(bad_threshold < good_threshold, 'thresholds are ordered')
            ctx.check(kw.get('max_iter') == (77 if out else None), 'options are passed on')
            if out and ctx.choose('out%d' % i, [False, True]):
                self.ran_out = True
                raise self._RunOutOfIterationsException()
            if ctx.choose('found%d' % i, [True, False]):
                ctx.assume(m <= good_threshold)
                d = ctx.frac('d%d' % i, Fraction(1), Fraction(20))
                ctx.assume(m <= d)
                ctx.assume(d <= good_threshold)
                return Token(fuzzy, d)
            ctx.assume(m >= bad_threshold)
            return None

    est = Est(fixed_ratio('l1'))
    est.ran_out = False
    kw = {'rel_tol_inv': tol}
    if start in ('lower', 'both'):
        lo = ctx.frac('start_lo', Fraction(1, 2), Fraction(16))
        ctx.assume(lo <= m)
        kw['start_lower_bound'] = lo
    if start in ('upper', 'both'):
        up = ctx.frac('start_up', Fraction(1), Fraction(16))
        d = ctx.frac('start_d', Fraction(1), Fraction(16))
        ctx.assume(m <= d)
        ctx.assume(d <= up)
        kw['start_upper_bound'] = up
        kw['start_curve'] = Token(fuzzy, d)
    if stop:
        kw['stop_upper_bound'] = ctx.frac('stop', Fraction(1), Fraction(16))
    if out:
        kw['max_iter'] = 77
    res = est.estimate_dilation_fuzzy(fuzzy, **kw)
    c = res['curve']
    if not isinstance(c, Token):
        ctx.check(start in ('none', 'lower') and c is est.example_curve, 'the curve was found by a test or is the first example')
        c = est.example
    lo, up = sf(res['lo']), sf(res['up'])
    if start == 'none' and n[0] == 0 and not est.ran_out:
        raise SkipHarness('threshold test not used')
    ctx.check(lo <= m, 'lower bound is not above the minimum')
    ctx.check(m <= up, 'upper bound is not below the minimum')
    ctx.check(c.d <= up, 'the curve is not worse than the upper bound')
    ends = [up <= lo * Fraction(tol + 1, tol), est.ran_out]
    if stop:
        ends.append(lo > kw['stop_upper_bound'])
    ctx.check(OR(ends), 'bounds meet the tolerance, unless stopped')
    if 'start_lower_bound' in kw:
        ctx.check(lo >= kw['start_lower_bound'], 'the known lower bound is kept')
    if 'start_upper_bound' in kw:
        ctx.check(up <= kw['start_upper_bound'], 'the known upper bound is kept')


_small = []


def small():
    if not _small:
        base = zoo_curve(H)
        _, f = continuous_family(H)
        for c in range(3):
            f = f.specify(0, c, base.patterns[0].specs[c])
        _small.append(f)
    return _small[0]


def h_sequence(ctx, n, tol, mult, upper=False, gen=False, maxcalls=30):
    """All outcomes of the single-curve estimates."""
    from peano.dilation import Estimator
    fz = [small().specify(0, 3, s) if i else small() for i, s in zip(range(n), itertools.cycle(small().gen_allowed_specs(0, 3)))]
    ms = [ctx.frac('m%d' % i, Fraction(1), Fraction(9)) for i in range(n)]
    calls = [0]
    used = []

    class Est(Estimator):
        def estimate_dilation_fuzzy(self, curve, rel_tol_inv=1000, stop_upper_bound=None, start_lower_bound=None, start_upper_bound=None, start_curve=None, **kw):
            k = calls[0]
            calls[0] += 1
            if k >= maxcalls:
                ctx.check(False, 'the refinement ends')
                raise Endless()
            i = next(j for j, f in enumerate(fz) if f is curve)
            ctx.check(kw == {'max_iter': 55}, 'options are passed on')
            lo, up, d = (ctx.frac('%s%d' % (x, k), Fraction(0), Fraction(20)) for x in ('lo', 'up', 'd'))
            ctx.assume(lo <= ms[i])
            ctx.assume(ms[i] <= up)
            ctx.assume(ms[i] <= d)
            ctx.assume(d <= up)
            if start_lower_bound is not None:
                ctx.check(start_lower_bound <= ms[i], 'the restart uses a lower bound of the same curve')
                ctx.assume(lo >= start_lower_bound)
            if start_upper_bound is not None:
                ctx.check(start_upper_bound >= ms[i], 'the restart uses an upper bound of the same curve')
                ctx.check(isinstance(start_curve, Token) and start_curve.src == i, 'the restart uses an example of the same curve')
                ctx.check(start_curve.d <= start_upper_bound, 'the restart curve is not worse than its bound')
                ctx.assume(up <= start_upper_bound)
            else:
                ctx.check(start_curve is None, 'a start curve comes with its bound')
            close = up <= lo * Fraction(rel_tol_inv + 1, rel_tol_inv)
            if stop_upper_bound is None:
                ctx.assume(close)
            else:
                ctx.assume(OR([close, lo > stop_upper_bound]))
            used.append(rel_tol_inv)
            return {'lo': lo, 'up': up, 'curve': Token(i, d)}

    est = Est(fixed_ratio('l1'))
    kw = {'rel_tol_inv': tol, 'max_iter': 55}
    if mult is not None:
        kw['rel_tol_inv_mult'] = mult
    least = MIN(ms)
    if upper:
        ub = ctx.frac('ub', Fraction(1), Fraction(9))
        kw['upper_bound'] = ub
    res = est.estimate_dilation_sequence((f for f in fz) if gen else fz, **kw)
    if not calls[0]:
        raise SkipHarness('single-curve estimate not used')
    if res is None:
        ctx.check(upper and AND([m > ub for m in ms]), 'nothing found only if the upper bound is violated')
        return
    lo, up = sf(res['lo']), sf(res['up'])
    ok = ub >= least if upper else True
    ctx.check(lo <= least, 'lower bound is not above the minimum')
    ctx.check(IMP(ok, up >= least), 'upper bound is not below the minimum')
    ctx.check(up <= lo * Fraction(tol + 1, tol), 'bounds meet the tolerance')
    idxs, curves = list(res['idxs']), list(res['curves'])
    ctx.check(len(idxs) == len(curves) == len(set(idxs)) and all(0 <= i < n for i in idxs), 'one curve per listed index')
    ctx.check(all(c.src == i for i, c in zip(idxs, curves)), 'each curve comes from the listed input')
    ctx.check(IMP(ok, OR([ms[i] == least for i in idxs])), 'an input with the minimum is listed')
    if not upper:
        ctx.check(OR([c.d <= up for c in curves]), 'some listed curve is not worse than the upper bound')
    slack = Fraction(max(used) + 1, max(used))
    ctx.check(AND([c.d <= up * slack for c in curves]), 'every listed curve is within the last tolerance')
    ctx.check(AND([c.d >= lo for c in curves]), 'no listed curve is better than the lower bound')


def h_direct(ctx, name, fixed, kinds, win, tol, alt=0, gap=20, q=256, prior=(), **kw):
    """The real thing on a family of regular curves, symbolic metric weight."""
    from peano.dilation import Estimator
    fixed = [tuple(f) for f in fixed]
    fuzzy, curves = curves_in(name, fixed, alt)
    rs = refs(name, fixed, alt, curves, kinds, gap)
    w = Var(ctx, 'w', F(win[0], q), F(win[1], q))
    try:
        est = Estimator(mixed(kinds, w))
        for n, a, t in prior:
            # earlier estimates by the same estimator must not matter
            est.estimate_dilation_fuzzy(curves_in(n, [tuple(f) for f in FX[n]], a)[0], rel_tol_inv=t)
        res = est.estimate_dilation_fuzzy(fuzzy, rel_tol_inv=tol, **kw)
    except Endless:
        ctx.check(False, 'the estimate ends')
        raise
    lo, up = sf(res['lo']), sf(res['up'])
    k = spec_key(res['curve'])
    ctx.check(k in curves, 'the curve belongs to the fuzzy curve')
    kept(ctx, res['curve'], fuzzy)
    ctx.check(AND([OR([lo <= val(f, w) for f in r[1]]) for r in rs.values()]), 'lower bound is not above the minimum')
    ctx.check(AND([up >= val(f, w) for f in rs[k][0]]), 'the curve is not worse than the upper bound')
    ctx.check(up <= lo * Fraction(tol + 1, tol), 'bounds meet the tolerance')


def h_dirseq(ctx, parts, kinds, win, tol, gap=20, q=256, gen=False, upper=None, mult=None):
    """Real sequence estimate over several families."""
    from peano.dilation import Estimator
    fams = [(n, [tuple(f) for f in fx], a) for n, fx, a in parts]
    all_ = [curves_in(*f) for f in fams]
    rs = [refs(*f, cs, kinds, gap) for f, (_, cs) in zip(fams, all_)]
    w = Var(ctx, 'w', F(win[0], q), F(win[1], q))
    kw = {} if mult is None else {'rel_tol_inv_mult': mult}
    if upper is not None:
        mid = F(win[0] + win[1], 2 * q)
        best = min(max(at(f, mid) for f in r[1]) for x in rs for r in x.values()) * F(upper, 100)
        kw['upper_bound'] = sf(best)
    fz = [f for f, _ in all_]
    try:
        res = Estimator(mixed(kinds, w)).estimate_dilation_sequence((f for f in fz) if gen else fz, rel_tol_inv=tol, **kw)
    except Endless:
        ctx.check(False, 'the estimate ends')
        raise
    if res is None:
        ctx.check(upper is not None and AND([OR([sf(best) < val(f, w) for f in r[1]]) for x in rs for r in x.values()]), 'nothing found only if the upper bound is violated')
        return
    lo, up = sf(res['lo']), sf(res['up'])
    ctx.check(AND([OR([lo <= val(f, w) for f in r[1]]) for x in rs for r in x.values()]), 'lower bound is not above the minimum')
    ctx.check(up <= lo * Fraction(tol + 1, tol), 'bounds meet the tolerance')
    idxs = list(res['idxs'])
    ctx.check(len(idxs) == len(set(idxs)) == len(res['curves']), 'one curve per listed index')
    ctx.check(all(0 <= i < len(fz) and spec_key(c) in all_[i][1] for i, c in zip(idxs, res['curves'])), 'each curve comes from the listed input')
    for i, c in zip(idxs, res['curves']):
        kept(ctx, c, fz[i])
    if upper is None or upper >= 100 + 100 // gap * 2:
        ctx.check(OR([AND([up >= val(f, w) for f in r[0]]) for x in rs for r in x.values()]), 'upper bound is not below the minimum')
        best_ = [AND([up >= val(f, w) for f in rs[i][spec_key(c)][0]]) for i, c in zip(idxs, res['curves'])]
        if upper is None:
            ctx.check(OR(best_), 'some listed curve is not worse than the upper bound')
        # an input that certainly has a curve below everything the listed inputs have must be listed
        for j in range(len(fz)):
            if j not in idxs:
                ctx.check(NOT(OR([AND([val(f, w) < lo for f in r[1]]) for r in rs[j].values()])), 'an input with a better curve is listed')


def D(n, kinds, win, tol, **kw):
    return dict(name=n, fixed=FX[n], kinds=kinds, win=win, tol=tol, **kw)


def S_(parts, kinds, win, tol, **kw):
    return dict(parts=parts, kinds=kinds, win=win, tol=tol, **kw)


HP = lambda *c: [(0, i) for i in c]
SEQ1 = [[H, HP(0, 1, 2), 0], [H, HP(1, 2), 1], [H, HP(0, 3), 2]]
SEQ2 = [[H, HP(0, 1, 2, 3), i] for i in range(5)]
SEQ3 = [[P, HP(0, 1, 2, 4, 5, 6, 7), 1], [H, HP(0, 3), 3], [P, HP(0, 1, 2, 4, 5, 6, 8), 2]]
HARNESSES = [
    {'name': 'fuzzy', 'fn': h_fuzzy,
     'quick': [dict(tol=t, start=s) for t, s in ((1, 'none'), (2, 'none'), (3, 'both'), (2, 'lower'), (2, 'upper'), (1, 'both'))] + [dict(tol=1, start='none', stop=True), dict(tol=2, start='both', stop=True), dict(tol=1, start='none', out=True), dict(tol=2, start='both', out=True, stop=True)],
     'thorough': [dict(tol=t, start=s, stop=st, out=o) for t in (3, 4) for s in ('none', 'lower', 'upper', 'both') for st in (False, True) for o in (False, True)]},
    {'name': 'sequence', 'fn': h_sequence,
     'quick': [dict(n=n, tol=t, mult=m, gen=g) for n, t, m, g in ((1, 10, 4, False), (2, 3, 4, False), (2, 10, 4, True), (3, 4, 4, True), (2, 6, None, False), (2, 3, 2, True))] + [dict(n=2, tol=3, mult=4, upper=True), dict(n=1, tol=10, mult=4, upper=True), dict(n=2, tol=6, mult=4, upper=True, gen=True), dict(n=3, tol=2, mult=4, upper=True)],
     'thorough': [dict(n=n, tol=t, mult=m, gen=g, upper=u) for n in (2, 3) for t, m in ((10, 4), (6, 2), (20, 8)) for g, u in ((True, False), (False, True))] + [dict(n=4, tol=3, mult=4)]},
    {'name': 'direct', 'fn': h_direct,
     'quick': [D(H, ('l1', 'min'), (100, 104), 20), D(H, ('prod', 'linf'), (30, 32), 30), D(B, ('l1', 'linf'), (100, 101), 8), D(BM, ('min', 'l1'), (60, 61), 8, alt=2), D(CO, ('pair', 'l1'), (200, 201), 6, alt=3), D(P, ('linf', 'min'), (20, 21), 8, alt=1), D(H, ('l1', 'min'), (100, 101), 12, prior=[(H, 0, 2), (B, 0, 4)]), D(B, ('l1', 'linf'), (100, 101), 8, prior=[(H, 0, 8)])]
     + [D(n, ('gauge', 0, 1), (16 * a, 16 * a + 1 + 4 * (n in (H, B))), 12, alt=l, gap=30, q=4096) for n, a, l in ((H, 7, 0), (H, 90, 0), (B, 30, 0), (BM, 12, 3), (P, 40, 5), (CO, 20, 6))],
     'thorough': [D(n, k, (a, a + 4), t, gap=40, alt=l) for n in (H, P, BM, CO, B) for k, t in ((('l1', 'min'), 20), (('prod', 'linf'), 12)) for a in (20, 200) for l in ((0,) if n in (H, B) else (1, 4))]},
    {'name': 'dirseq', 'fn': h_dirseq,
     'quick': [S_(SEQ1, ('l1', 'min'), (100, 102), 20), S_(SEQ2, ('linf', 'prod'), (30, 34), 12, gen=True), S_(SEQ2, ('l1', 'linf'), (128, 130), 10, upper=130), S_(SEQ2, ('l1', 'min'), (50, 52), 10, upper=80), S_(SEQ3, ('l1', 'linf'), (128, 129), 6), S_(SEQ1, ('sum', 'linf'), (60, 61), 8, mult=2)],
     'thorough': [S_(s, k, (a, a + 3), 20, gap=40, gen=g, upper=u) for s in (SEQ1, SEQ2, SEQ3) for k in (('l1', 'min'), ('linf', 'prod')) for a in (30, 220) for g, u in ((True, None), (False, 120), (False, 85))]},
]
