"""C18: the dilation estimate of a fully defined curve brackets its dilation, to the requested tolerance."""
import itertools
from symx.api import *
from harness.common import *
from harness.dil import *

FUNCTIONS = ['peano.dilation.Estimator.estimate_dilation_regular/_create_tree/_push_tree/_divide_tree/_get_bounds/_get_pos_bounds', 'peano.dilation._CurvePiecePair.init_first_order/divide_balanced/get_last_specs',
             'peano.dilation._CurvePiece.divide/get_last_spec', 'peano.curves.FuzzyCurve.gen_auto_junctions/get_deep_spec/specify', 'peano.curves.Curve.gen_regular_junctions/gen_allowed_specs', 'peano.curves.FuzzyCurve.get_face_moment']
BOUNDS = ('curves: zoo curves of dim 2..3 (dim 4 thorough), div 2..5, 1..6 patterns, and curves with every allowed orientation at up to 3 positions; metric (1-w)*m0 + w*m1 with symbolic w in [0,1] and m0, m1 from l1, linf, l2, sum of powers; '
          'tolerances 1/2..1/1000, iteration limits 0..40, depth limits 1..2, with and without face moments of dimension 0..2; one estimator used for up to 3 curves in a row, with cache sizes 1..; gauge metrics min(s_i^d, w*s_j^d) with symbolic w')
OUTSIDE = 'metrics not symmetric under the cube isometries; finer tolerances; other curves'
ASSUMPTIONS = ['reference bracket of the dilation by an independent subdivision (harness/dil.py), relative gap 2-5%', 'every pattern is reachable from the selected one']


def estimate(ctx, kinds, w, curve, est=None, **kw):
    from peano.dilation import Estimator
    try:
        return (est or Estimator(mixed(kinds, w))).estimate_dilation_regular(curve, **kw)
    except Endless:
        ctx.check(False, 'the estimate ends')
        raise


def h_est(ctx, name, lo, hi, kinds=('l1', 'linf'), tol=None, iters=None, free=(), gap=20, rot=False, mem=None, q=1):
    if free:
        base, fuzzy = continuous_family(name)
        specs = pick_specs(ctx, fuzzy, base, [tuple(f) for f in free])
        curve = mk_curve(base.dim, base.div, [list(p.proto) for p in base.patterns], specs)
        ref = reference((name, str(specs)), kinds, F(1, gap), curve)
    else:
        i = ctx.choose('member', list(range(*mem))) if mem else 0
        curve = member(name, i)
        ref = reference((name, i), kinds, F(1, gap), curve)
    if rot:
        k = ctx.base_map_data('rot', curve.dim)
        curve = spec_of(k, ctx.choose('pn', list(range(curve.mult)))) * curve
    w = Var(ctx, 'w', F(lo, 64), F(lo, 64) + F(hi - lo, 64 * q))
    res = estimate(ctx, kinds, w, curve, rel_tol_inv=tol, max_iter=iters)
    bracket(ctx, res, ref, w)
    if iters is None:
        ctx.check(sf(res['up']) <= sf(res['lo']) * Fraction(tol + 1, tol), 'bounds meet the tolerance')
    ctx.check(res.get('argmax') is None, 'no points asked for')


def curve_at(plain, s, t):
    """Exact point of (k,p)*curve at rational time t."""
    seen, cubes = {}, []
    G = plain.genus
    while (s, t) not in seen:
        seen[s, t] = len(cubes)
        q = t * G
        c = min(q.numerator // q.denominator, G - 1)
        cube, s = plain.level1(*s)[c]
        cubes.append(cube)
        t = q - c
    i = seen[s, t]
    per = cubes[i:]
    N = plain.div
    y = [sum(F(c[j]) / N**(n + 1) for n, c in enumerate(per)) / (1 - F(1, N**len(per))) for j in range(plain.dim)]
    for c in reversed(cubes[:i]):
        y = [(a + b) / N for a, b in zip(y, c)]
    return y


def h_points(ctx, name, lo, hi, face_dim, kinds=('l1', 'linf'), tol=None, iters=None, depth=None, gap=20, mem=None, q=1):
    """With face moments: the best pair of points is on the curve and has the ratio of the lower bound; depth limit."""
    i = ctx.choose('member', list(range(*mem))) if mem else 0
    curve = member(name, i)
    plain = Plain.of(curve)
    ref = reference((name, i), kinds, F(1, gap), curve)
    w = Var(ctx, 'w', F(lo, 64), F(lo, 64) + F(hi - lo, 64 * q))
    kw = {} if depth is None else {'max_depth': depth}
    res = estimate(ctx, kinds, w, curve, rel_tol_inv=tol, max_iter=iters, use_face_moments=True, face_dim=face_dim, **kw)
    bracket(ctx, res, ref, w)
    if tol is not None and iters is None and depth is None:
        ctx.check(sf(res['up']) <= sf(res['lo']) * Fraction(tol + 1, tol), 'bounds meet the tolerance')
    on_curve(ctx, res, plain, kinds, w)
    if depth is not None:
        cs = depth_points((name, i), plain, curve, face_dim, depth, kinds)
        ctx.check(AND([sf(res['lo']) >= val(f, w) for f in cs]), 'the lower bound covers every pair of moments up to the depth limit')


def on_curve(ctx, res, plain, kinds, w):
    am = res['argmax']
    x1, t1, x2, t2 = [conc(x) for x in am['x1']], conc(am['t1']), [conc(x) for x in am['x2']], conc(am['t2'])
    s1, s2, dx = jn_of(am['junc'])
    dt = am['junc'].delta_t
    ok = any(jn_canon((s1, s2, dx)) == j for j in jn_all(plain)[0]) if dt else (s1 == s2 and not any(dx))
    ctx.check(ok, 'the pair of points belongs to a junction of the curve')
    ctx.check(0 <= t1 <= 1 and dt <= t2 <= dt + 1 and t1 < t2, 'times of the two points')
    ctx.check(x1 == curve_at(plain, s1, t1), 'first point is on the curve at its time')
    ctx.check(x2 == [a + b for a, b in zip(curve_at(plain, s2, t2 - dt), dx)], 'second point is on the curve at its time')
    d = [abs(a - b) for a, b in zip(x1, x2)]
    v = tuple(q / (t2 - t1) for q in coef_of(kinds, plain.dim, d))
    ctx.check(sf(res['lo']) == val(v, w), 'the lower bound is the ratio of the two points')


def h_history(ctx, name, lo, hi, kinds, runs, gap=20, q=1, cache=2**18):
    """One estimator used for several curves in a row: every answer is as if it were the first."""
    from peano.dilation import Estimator
    w = Var(ctx, 'w', F(lo, 64), F(lo, 64) + F(hi - lo, 64 * q))
    est = Estimator(mixed(kinds, w), cache_max_size=cache)
    for nm, i, face_dim, tol in runs:
        curve = member(nm or name, i)
        plain = Plain.of(curve)
        ref = reference((nm or name, i), kinds, F(1, gap), curve)
        kw = {} if face_dim is None else dict(use_face_moments=True, face_dim=face_dim)
        res = estimate(ctx, kinds, w, curve, est, rel_tol_inv=tol, **kw)
        bracket(ctx, res, ref, w)
        ctx.check(sf(res['up']) <= sf(res['lo']) * Fraction(tol + 1, tol), 'bounds meet the tolerance')
        if face_dim is not None:
            on_curve(ctx, res, plain, kinds, w)
        else:
            ctx.check(res.get('argmax') is None, 'no points asked for')
        est.get_info()


_dp = {}


def depth_points(name, plain, curve, face_dim, depth, kinds):
    """Ratios of all pairs of face-moment points of non-adjacent fractions of the given depth."""
    key = (name, face_dim, depth, tuple(kinds))
    if key not in _dp:
        pts = {}
        for p in range(len(plain.patterns)):
            q = set()
            for face in itertools.product((None, 0, 1), repeat=plain.dim):
                if face.count(None) != face_dim:
                    continue
                for last in (False, True):
                    t = conc(curve.get_face_moment(face, pnum=p, last=last))
                    q.add((tuple(curve_at(plain, (ref_id(plain.dim), p), t)), t))
            pts[p] = sorted(q)
        pairs = start_pairs(plain)
        for n in range(1, depth):
            pairs = [(a, b) for x, y in pairs for a in x.split(plain) for b in y.split(plain)]
        out = []
        D, T = plain.div**depth, plain.genus**depth
        for a, b in pairs:
            (ka, pa), (kb, pb) = a.s, b.s
            for (x, t), (y, u) in itertools.product(pts[pa], pts[pb]):
                x, y = ref_x(ka, x), ref_x(kb, y)
                t, u = (1 - t if ka[1] else t), (1 - u if kb[1] else u)
                dx = [abs(i + j - k - l) for i, j, k, l in zip(b.x, y, a.x, x)]
                dt = b.t + u - a.t - t
                out.append(tuple(q / dt for q in coef_of(kinds, plain.dim, dx)))
            if len(out) > 5000:
                out = envelope(out)
        _dp[key] = envelope(out)
    return _dp[key]


def cuts(n):
    return [(64 * i // n, 64 * (i + 1) // n) for i in range(n)]


def C(name, n=1, **kw):
    return [dict({'name': name, 'lo': a, 'hi': b}, **kw) for a, b in cuts(n)]


H, P, B = 'get_hilbert_curve', 'get_peano_curve', 'get_beta_omega_curve'
def W(name, los, n=1, **kw):
    """Windows of n/64 of the weight."""
    return [dict({'name': name, 'lo': a, 'hi': a + n}, **kw) for a in los]


FAM = ('get_hilbert_curve', 'get_peano_curve', 'get_beta_omega_curve', 'get_ARW_Curve', 'get_coil_curve', 'get_tokarev_curve', 'get_neptunus_curve')
T3 = [dict(name='get_tokarev_curve', lo=a, hi=a + 1, q=64, kinds=k, tol=2, gap=8, face_dim=f, mem=(m, m + (f != 1) + 1)) for a, k, f, m in ((20, ('min', 'prod'), 0, 0), (40, ('l1', 'linf'), 1, 3), (9, ('l1', 'min'), 2, 4))] + [dict(name=n, lo=20, hi=21, q=64, kinds=('l1', 'linf'), tol=2, gap=8, face_dim=f) for n, f in (('get_neptunus_curve', 0), ('get_spring_curve', 0), ('get_haverkort_curve_f', 2))]
N3 = [dict(name=n, lo=a, hi=a + 1, q=64, kinds=k, tol=3, gap=8, mem=(m, m + 2)) for n in ('get_neptunus_curve', 'get_spring_curve', 'get_haverkort_curve_f', 'get_peano5_curve', 'get_meurthe_curve') for a, k, m in ((20, ('l1', 'linf'), 0), (40, ('min', 'prod'), 3))]
HARNESSES = [
    {'name': 'family', 'fn': h_est, 'quick': [dict(name=n, lo=a, hi=a + 1, q=8, kinds=k, tol=20 if n != 'get_tokarev_curve' else 10, gap=30 if n != 'get_tokarev_curve' else 10, mem=(0, 4 if n == 'get_ARW_Curve' else 8)) for n in FAM[:6] for a, k in ((20, ('min', 'prod')), (40, ('pair', 'linf')), (3, ('sum', 'min')))] + N3,
     'thorough': [dict(name=n, lo=a, hi=a + 2, kinds=k, tol=20, gap=30 if n in FAM[:5] else 10, mem=(12, 40)) for n in FAM for a, k in ((20, ('min', 'prod')), (40, ('pair', 'linf')), (3, ('sum', 'min')), (60, ('l1', 'prod')))]},
    {'name': 'gauge', 'fn': h_est,
     'quick': [dict(name=n, lo=a, hi=a + 4, kinds=('gauge', 0, 1), tol=10, gap=20, mem=(m, m + 2)) for n, m in ((H, 0), (H, 3), (P, 0), (B, 0), (B, 2)) for a in ((2, 10, 26, 42, 58) if n != P else (34, 50))]
     + [dict(name=n, lo=a, hi=a + 1, q=32, kinds=('gauge', 0, 1), tol=25, gap=40, mem=(b, b + 3)) for n in (H, P, B, 'get_bauman_curve', 'get_coil_curve', 'get_ARW_Curve') for b, a in ((0, 4), (3, 17), (6, 1), (9, 30), (12, 8))]
     + [dict(name='get_tokarev_curve', lo=a, hi=a + 1, q=32, kinds=('gauge', i, j), tol=8, gap=10, mem=(b, b + 2)) for a, i, j, b in ((4, 0, 2, 0), (20, 1, 2, 2), (9, 0, 1, 4), (40, 0, 2, 6))],
     'thorough': [dict(name=n, lo=a, hi=a + 4, kinds=('gauge', 0, 1), tol=20, gap=30, mem=(m, m + 2)) for n, m in ((H, 0), (H, 3), (P, 0), (B, 0), (B, 2), ('get_bauman_curve', 0)) for a in range(2, 63, 4)]
     + [dict(name=n, lo=a, hi=a + 1, q=32, kinds=('gauge', 0, 1), tol=40, gap=60, mem=(12, 40)) for n in (H, P, B, 'get_bauman_curve', 'get_coil_curve', 'get_ARW_Curve') for a in (1, 2, 3, 6, 12, 24, 48)]},
    {'name': 'tol', 'fn': h_est,
     'quick': C(H, tol=2) + W(H, (0, 20, 40, 60), 4, tol=20) + W(H, (10, 50), 1, tol=100, gap=50) + W(P, (8, 40), 4, tol=5) + W(B, (10, 44), 4, tol=5) + W(H, (0, 56), 8, tol=10, kinds=('l2', 'linf'))
     + W(H, (30,), 2, tol=4, free=[(0, 0), (0, 1), (0, 3)]) + W(B, (30,), 2, tol=3, free=[(0, 1), (1, 2)]) + W('get_ARW_Curve', (5,), 1, tol=3) + W('get_tokarev_curve', (50,), 1, tol=2, gap=10) + W(B, (30,), 2, tol=3, rot=True) + [dict(name=n, lo=a, hi=a + 1, q=2048, tol=t, gap=g, kinds=k) for n, a, t, g, k in ((H, 10, 1000, 500, ('l1', 'linf')), (B, 40, 300, 200, ('l2', 'min')), (P, 33, 300, 200, ('l1', 'l2')))],
     'thorough': C(H, 4, tol=20) + C(P, 4, tol=10) + C(B, 4, tol=10) + W(H, (10, 50), 1, tol=200, gap=100) + C(H, 4, tol=4, free=[(0, 0), (0, 1), (0, 2), (0, 3)]) + W('get_neptunus_curve', (10, 50), 1, tol=4, gap=10) + W('get_coil_curve', (10, 50), 2, tol=8) + W('get_peano5_curve', (10, 50), 2, tol=4) + W('get_ARW_Curve', (5, 30, 60), 2, tol=8)},
    {'name': 'history', 'fn': h_history,
     'quick': [dict(name=n, lo=a, hi=a + 1, q=64, kinds=k, gap=15, runs=[(None, i, f, 3) for i, f in r]) for n in (H, B) for a, k in ((20, ('min', 'prod')), (40, ('pair', 'linf')), (9, ('l1', 'l2')))
               for r in ([(0, 0), (1, 0), (2, 0), (0, None)], [(3, None), (4, 0), (4, 1), (3, 0), (4, 0)], [(5, 1), (6, 1), (7, 0), (5, 0)])]
     + [dict(name=n, lo=a, hi=a + 1, q=64, kinds=k, gap=15, runs=[(None, i, 0, 6) for i in range(b, b + 6)]) for n in (P, 'get_coil_curve') for a, k, b in ((60, ('l1', 'linf'), 0), (3, ('l1', 'linf'), 6), (30, ('min', 'prod'), 12))]
     + [dict(name=H, lo=20, hi=21, q=64, kinds=('l1', 'linf'), gap=15, runs=[('get_hilbert_curve', 0, 0, 3), ('get_peano_curve', 0, 0, 3), ('get_beta_omega_curve', 0, 0, 3), ('get_hilbert_curve', 1, 0, 3), ('get_peano_curve', 1, 1, 3)])]
     + [dict(name=n, lo=a, hi=a + 1, q=64, kinds=('gauge', 0, 1), gap=15, cache=c, runs=[(None, 1, 0, 4), (None, 4, None, 5), (None, 2, 1, 4), (None, 1, None, 5)]) for n, a, c in ((H, 5, 0), (B, 20, 1), (H, 40, 3), (P, 12, 8), (B, 7, None))],
     'thorough': [dict(name=n, lo=a, hi=a + 1, q=16, kinds=k, gap=15, runs=[(None, i, i % 3 if i % 3 < 2 else None, 5) for i in r]) for n in (H, B, P) for a, k in ((20, ('min', 'prod')), (40, ('pair', 'linf')), (9, ('l1', 'l2'))) for r in (range(8), range(10, 18))]},
    {'name': 'iters', 'fn': h_est, 'quick': C(H, iters=1) + C(H, iters=7) + C(P, iters=3) + C(B, iters=20) + W(P, (20,), 4, iters=40) + W('get_tokarev_curve', (30,), 2, iters=10, gap=10), 'thorough': C(H, 4, iters=60) + C(P, 4, iters=40) + C(B, 4, iters=60)},
    {'name': 'depth', 'fn': h_points, 'quick': [dict(name=n, lo=a, hi=a + 1, q=64, kinds=k, gap=15, face_dim=f, depth=d, mem=(0, 3)) for n in (H, P, B) for a, k, f, d in ((20, ('min', 'prod'), 0, 1), (40, ('pair', 'linf'), 0, 1), (3, ('sum', 'min'), 1, 1), (30, ('prod', 'l1'), 1, 2), (30, ('linf', 'min'), 0, 2)) if not (n == P and d == 2)],
     'thorough': [dict(name=n, lo=a, hi=a + 1, q=16, kinds=k, gap=15, face_dim=f, depth=d, mem=(0, 5)) for n in (H, P, B) for a, k, f, d in ((20, ('min', 'prod'), 0, 2), (40, ('pair', 'linf'), 1, 2), (30, ('prod', 'l1'), 1, 2), (30, ('linf', 'min'), 0, 2))]},
    {'name': 'points', 'fn': h_points, 'quick': [dict(name=n, lo=a, hi=a + 1, q=8, kinds=k, tol=5, gap=15, face_dim=f, mem=(0, 5 if n == B else 3)) for n in FAM[2:4] for a, k, f in ((20, ('min', 'prod'), 0), (40, ('pair', 'linf'), 0), (3, ('sum', 'min'), 1))] + W(H, (0, 25, 50), 2, face_dim=0, tol=10) + W(H, (30,), 1, face_dim=1, depth=1) + W(P, (30,), 1, face_dim=0, depth=1) + W(B, (30,), 1, face_dim=0, tol=4) + W(P, (0,), 1, face_dim=1, tol=4) + T3,
     'thorough': W(H, (0, 25, 50), 8, face_dim=0, tol=20) + W(H, (10, 30), 2, face_dim=1, depth=2) + W(P, (30,), 2, face_dim=0, depth=2) + W(B, (30, 50), 2, face_dim=1, tol=8) + W('get_tokarev_curve', (30,), 1, face_dim=0, tol=2, gap=10)},
]
