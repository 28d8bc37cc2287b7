"""C20: the threshold test on a fuzzy curve answers correctly: a returned curve is good, no curve returned means all are bad."""
import itertools
from symx.api import *
from harness.common import *
from harness.dil import *

FUNCTIONS = ['peano.dilation.Estimator.bisect_dilation_fuzzy/_create_tree/_divide_tree/_forbid/_push_tree/_get_bounds/_get_pos_bounds', 'peano.dilation._CurvePiecePair.*', 'peano.dilation._CurvePiece.divide',
             'peano._sat_adapters.CurveSATAdapter.*', 'peano._bounded_items_heap.BoundedItemsHeap.*', 'peano.curves.PathFuzzyCurve.specify/gen_allowed_specs']
BOUNDS = ('families of 2..64 curves (hilbert, beta-omega, bauman, coil, peano, tokarev with some orientations fixed); the good threshold a symbolic real in windows around the minimal dilation (factor 0.7..1.6), bad threshold 60%..98% of it; 6 metrics; '
          'or thresholds fixed and the metric (1-w)*m0 + w*m1 with symbolic w; several SAT call schedules, iteration limits 0..3000 (nine values, a solver choice); gauge metrics; after earlier runs of the same estimator')
OUTSIDE = 'larger families; thresholds closer than 2%'
ASSUMPTIONS = ['dilation of every curve of the family bracketed by an independent subdivision (harness/dil.py)', 'pysat Glucose3 is right']

_fam2 = {}


def curves_in(name, fixed, alt=0):
    """(fuzzy curve, {specs: real curve}) of a small family: orientations at the fixed positions are those of a member."""
    key = (name, str(fixed), alt)
    if key not in _fam2:
        base = member(name, alt)
        _, fuzzy = continuous_family(name)
        fuzzy = spec_of(ref_id(base.dim), base.mult - 1) * fuzzy
        for p, c in fixed:
            fuzzy = fuzzy.specify(p, c, base.patterns[p].specs[c])
        opts = {(p, c): sorted((bmkey(s.base_map), s.pnum) for s in fuzzy.gen_allowed_specs(p, c)) for p in range(fuzzy.mult) for c in range(fuzzy.genus)}
        out = {}
        protos = [list(p.proto) for p in base.patterns]
        for sel in itertools.product(*opts.values()):
            d = dict(zip(opts, sel))
            specs = [[d[p, c] for c in range(fuzzy.genus)] for p in range(fuzzy.mult)]
            out[tuple(map(tuple, specs))] = mk_curve(fuzzy.dim, fuzzy.div, protos, specs, fuzzy.pnum)
        _fam2[key] = (fuzzy, out)
    return _fam2[key]


def spec_key(curve):
    return tuple(tuple((bmkey(s.base_map), s.pnum) for s in pat.specs) for pat in curve.patterns)


def kept(ctx, curve, fuzzy):
    ctx.check([list(p.proto) for p in curve.patterns] == [list(p.proto) for p in fuzzy.patterns], 'prototypes kept')
    ctx.check(curve.pnum == fuzzy.pnum, 'selected pattern kept')


def refs(name, fixed, alt, curves, kinds, gap):
    return {k: reference((name, str(fixed), alt, k), kinds, F(1, gap), c) for k, c in curves.items()}


def fixed_ratio(kind, limit=100000):
    count = [0]

    def ratio(d, dx, dt):
        count[0] += 1
        if count[0] > limit:
            raise Endless()
        return Fraction(KINDS[kind](d, [abs(x) for x in dx]), dt)
    return ratio


def run(ctx, ratio, fuzzy, good, bad, prior=(), **kw):
    from peano.dilation import Estimator
    est = Estimator(ratio)
    try:
        for f, g, b in prior:
            # earlier questions to the same estimator must not matter
            est.bisect_dilation_fuzzy(f, good_threshold=g, bad_threshold=b)
        return est.bisect_dilation_fuzzy(fuzzy, good_threshold=good, bad_threshold=bad, **kw)
    except Endless:
        ctx.check(False, 'the test ends')
        raise


def h_threshold(ctx, name, fixed, kind, win, ratio, alt=0, gap=20, mul=None, prior=(), iters=None):
    """Fixed metric, symbolic threshold."""
    fixed = [tuple(f) for f in fixed]
    fuzzy, curves = curves_in(name, fixed, alt)
    rs = refs(name, fixed, alt, curves, (kind, kind), gap)
    lows = {k: max(f[0] for f in r[0]) for k, r in rs.items()}
    ups = {k: max(f[0] for f in r[1]) for k, r in rs.items()}
    best = min(lows.values())
    v = Var(ctx, 'v', best * F(win[0], 100), best * F(win[1], 100))
    good = v.lin()
    bad = good * Fraction(ratio, 100)
    kw = {} if mul is None else {'sat_iter_multiplier': mul}
    earlier = [(curves_in(n, [tuple(f) for f in FX[n]], a)[0], sf(best * F(g, 100)), sf(best * F(b, 100))) for n, a, g, b in prior]
    if iters is not None:
        # an answer within the limit is an answer; otherwise the documented exception
        from peano.dilation import Estimator
        out = getattr(Estimator, '_RunOutOfIterationsException', None)
        if out is None:
            raise SkipHarness('exception of the iteration limit')
        kw['max_iter'] = ctx.choose('iters', list(iters))
        try:
            res = run(ctx, fixed_ratio(kind), fuzzy, good, bad, earlier, **kw)
        except out:
            return
    else:
        res = run(ctx, fixed_ratio(kind), fuzzy, good, bad, earlier, **kw)
    if res is None:
        ctx.check(sf(bad) <= sf(min(ups.values())), 'no curve returned: every curve is bad')
    else:
        k = spec_key(res)
        ctx.check(k in curves, 'the returned curve belongs to the fuzzy curve')
        kept(ctx, res, fuzzy)
        ctx.check(sf(lows[k]) <= sf(good), 'the returned curve is good')


def h_metric(ctx, name, fixed, kinds, win, thr, ratio, alt=0, gap=20, q=256):
    """Fixed thresholds, symbolic metric weight."""
    fixed = [tuple(f) for f in fixed]
    fuzzy, curves = curves_in(name, fixed, alt)
    rs = refs(name, fixed, alt, curves, kinds, gap)
    w = Var(ctx, 'w', F(win[0], q), F(win[1], q))
    mid = F(win[0] + win[1], 2 * q)
    best = min(max(at(f, mid) for f in r[0]) for r in rs.values())
    good = best * F(thr, 100)
    bad = good * F(ratio, 100)
    res = run(ctx, mixed(kinds, w), fuzzy, sf(good), sf(bad))
    if res is None:
        ctx.check(AND([OR([sf(bad) <= val(f, w) for f in r[1]]) for r in rs.values()]), 'no curve returned: every curve is bad')
    else:
        k = spec_key(res)
        ctx.check(k in curves, 'the returned curve belongs to the fuzzy curve')
        kept(ctx, res, fuzzy)
        ctx.check(AND([val(f, w) <= sf(good) for f in rs[k][0]]), 'the returned curve is good')


H, BM, P, B, T, CO = 'get_hilbert_curve', 'get_bauman_curve', 'get_peano_curve', 'get_beta_omega_curve', 'get_tokarev_curve', 'get_coil_curve'
FX = {H: [], B: [], BM: [(0, c) for c in (1, 3, 5, 7, 8)], P: [(0, c) for c in (1, 2, 4, 5, 6, 7)], CO: [(0, c) for c in (0, 3, 4, 5, 7, 8)], T: [(0, c) for c in (0, 1, 3, 4, 6)]}


def TH(n, kind, win, ratio, **kw):
    return dict(name=n, fixed=FX[n], kind=kind, win=win, ratio=ratio, **kw)


HARNESSES = [
    {'name': 'threshold', 'fn': h_threshold,
     'quick': [TH(n, k, w, r, alt=a) for n, k, w, r, a in ((H, 'l1', (70, 160), 90, 0), (H, 'linf', (90, 130), 95, 0), (H, 'min', (80, 140), 80, 0), (B, 'prod', (80, 140), 90, 0), (B, 'linf', (80, 140), 95, 0), (BM, 'l1', (90, 110), 90, 1), (P, 'linf', (90, 115), 90, 2), (CO, 'min', (90, 120), 90, 3), (T, 'linf', (90, 120), 80, 1), (T, 'pair', (95, 115), 70, 2))]
     + [TH(H, 'sum', (95, 115), 92, mul=5), TH(H, 'l1', (90, 120), 92, prior=[(H, 0, 60, 50), (H, 0, 130, 120)]), TH(P, 'linf', (90, 115), 90, alt=2, prior=[(BM, 1, 100, 90), (P, 1, 120, 100)]), TH(B, 'min', (90, 115), 90, prior=[(H, 0, 100, 90), (B, 0, 70, 60)])]
     + [TH(n, k, w, r, alt=a, iters=(0, 1, 3, 8, 20, 50, 150, 500, 3000), mul=m) for n, k, w, r, a, m in ((H, 'l1', (96, 99), 95, 0, None), (H, 'linf', (101, 104), 95, 0, 2), (B, 'l1', (97, 99), 95, 0, None), (P, 'min', (97, 99), 95, 2, 4), (T, 'linf', (98, 99), 90, 1, None))]
     + [TH(n, k, (95, 125), 95, alt=a) for i, n in enumerate((P, BM, CO, H)) for j, k in enumerate(('min', 'l1', 'linf', 'prod', 'pair')) for a in ((i + j) % 4 + 4,)],
     'thorough': [TH(n, k, (85, 140), 97, alt=a, gap=40) for n in (H, P, BM, CO, B) for k in ('min', 'l1', 'linf', 'prod', 'pair', 'sum') for a in ((0,) if n in (H, B) else (1, 2, 3))]
     + [TH(T, k, (90, 125), 90, alt=a, gap=12) for k in ('min', 'l1', 'linf', 'prod') for a in (1, 2)]},
    {'name': 'metric', 'fn': h_metric, 'quick': [dict(name=n, fixed=FX[n], kinds=k, win=w, thr=t, ratio=r, alt=a) for n, k, w, t, r, a in ((H, ('l1', 'min'), (100, 110), 105, 90, 0), (H, ('prod', 'linf'), (30, 34), 97, 92, 0), (B, ('l1', 'min'), (100, 120), 104, 90, 0), (BM, ('min', 'linf'), (20, 22), 106, 90, 3), (CO, ('pair', 'prod'), (200, 202), 98, 90, 2))]
     + [dict(name=n, fixed=FX[n], kinds=('gauge', 0, 1), win=(16 * a, 16 * a + 1 + 8 * (n in (H, B))), q=4096, thr=t, ratio=93, alt=l, gap=30) for n, a, t, l in ((H, 6, 104, 0), (H, 20, 98, 0), (H, 60, 106, 0), (B, 12, 103, 0), (B, 100, 97, 0), (BM, 9, 105, 2), (BM, 70, 98, 5), (P, 17, 104, 3), (P, 140, 104, 6), (CO, 8, 98, 1), (CO, 40, 105, 7))],
     'thorough': [dict(name=n, fixed=FX[n], kinds=k, win=(a, a + 8), thr=t, ratio=95, alt=l, gap=40) for n in (H, P, BM, CO) for k in (('l1', 'min'), ('prod', 'linf')) for a in (20, 130, 240) for t in (98, 104) for l in (1, 5)]},
]
