"""C17: bounds for a pair of fractions enclose every ratio realised on the pair, and the lower bound is attained."""
import itertools
from symx.api import *
from harness.common import *
from harness.dil import *

FUNCTIONS = ['peano.dilation.Estimator._get_pos_bounds/_get_bounds/_create_tree/_push_tree', 'peano.dilation._PiecePosition.get_int_coords/specify',
             'peano.utils.get_int_cube_with_cache/get_int_time_with_cache', 'peano.base_maps.BaseMap.apply_cube/apply_cnum', 'peano.curves.CurvePoint.__rmul__/scale',
             'peano.dilation.Estimator.estimate_dilation_regular (start bounds)']
BOUNDS = ('pairs: dim 1..3, div 2..3 (dim 1..2 also 4, 5, 7), depths 1..3 (second fraction at the same depth or one less), every address and every nested cube symbolic, every pair of orientations (dim 3: table), every shift in -1..1 (symbolic), '
          'ratio function uninterpreted: any homogeneous monotone one; with points: up to 2 arbitrary curve points per fraction; '
          'division: a free pair of points of the parent pair lies in one of the parts (curves and fuzzy curves), start pairs cover every pair of points; start bounds through the public API: 6 curves, metric mixed from l1 and linf with a symbolic weight')
OUTSIDE = 'deeper pairs; dim >= 4'
ASSUMPTIONS = ['ratio(c*dx, c**d*dt) = ratio(dx, dt), ratio grows with |dx_j| and decreases with dt (documented precondition)', 'the two fractions are not adjacent in time']


def frac_box(k, dim, div, cubes, cnums, shift, delta_t):
    """Corners lo/hi per coordinate and time interval of a fraction of (k)*pattern, shifted; in real coordinates."""
    G = div**dim
    n = len(cnums)
    D, T = div**n, G**n
    x = [0] * dim
    for c in cubes:
        x = [a * div + b for a, b in zip(x, c)]
    t = 0
    for c in cnums:
        t = t * G + c
    lo = ref_cube(k, D, x)
    t = T - 1 - t if k[1] else t
    return [Fraction(1, D) * a + s for a, s in zip(lo, shift)], Fraction(1, D), Fraction(1, T) * t + delta_t, Fraction(1, T)


def absv(x):
    return MAX([x, -x])


def leq_ratio(d, lams, dx, dt, DX, DT):
    """ratio(dx, dt) <= ratio(DX, DT) for every homogeneous monotone ratio: |dx_j|^d * DT <= |DX_j|^d * dt."""
    lin = [AND([absv(a) * l <= absv(b) for a, b in zip(dx, DX)] + [dt * l**d >= DT]) for l in lams]
    return lin


def nonlin(d, dx, dt, DX, DT):
    return AND([absv(a)**d * DT <= absv(b)**d * dt for a, b in zip(dx, DX)])


class Recorder:
    """Uninterpreted ratio function: a fresh value for each call."""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def __call__(self, dim, dx, dt):
        v = self.ctx.frac('v%d' % len(self.calls))
        self.calls.append((list(dx), dt, v))
        return v


def setup(ctx, dim, div, d1, d2, few, npts=0):
    from peano.curves import Junction
    from peano.dilation import Estimator, _PiecePosition
    G = div**dim
    if few:
        k1, k2 = ctx.choose('k1', [mix(dim, i) for i in range(few)]), ctx.choose('k2', [mix(dim, 3 * i + 1) for i in range(few)])
    else:
        k1, k2 = ctx.base_map_data('k1', dim), ctx.base_map_data('k2', dim)
    cubes = [sym_cubes(ctx, 'c%d_' % i, dim, div, n) for i, n in ((1, d1), (2, d2))]
    cnums = [[ctx.int('n%d_%d' % (i, q), 0, G - 1) for q in range(n)] for i, n in ((1, d1), (2, d2))]
    delta_t = ctx.choose('dt', [0, 1])
    dx = tuple(ctx.int('s%d' % j, -1, 1) for j in range(dim))
    f1 = frac_box(k1, dim, div, cubes[0], cnums[0], (0,) * dim, 0)
    f2 = frac_box(k2, dim, div, cubes[1], cnums[1], dx, delta_t)
    ctx.assume(f2[2] > f1[2] + f1[3])
    rec = Recorder(ctx)
    est = Estimator(rec)
    junc = Junction(spec_of(k1, 0), spec_of(k2, 0), delta_x=dx, delta_t=delta_t)
    pos = [_PiecePosition(dim, div, tuple(n), tuple(c)) for n, c in zip(cnums, cubes)]
    return est, rec, junc, pos, f1, f2, k1, k2


def h_pair(ctx, dim, div, d1, d2, few=None):
    est, rec, junc, pos, f1, f2, k1, k2 = setup(ctx, dim, div, d1, d2, few)
    lo, up, argmax = est._get_pos_bounds(junc, pos[0], pos[1], (), ())
    ctx.check(argmax is None, 'no points, no argmax')
    # any two points of the fractions
    x1 = [a + f1[1] * ctx.frac('x%d' % j, 0, 1) for j, a in enumerate(f1[0])]
    x2 = [a + f2[1] * ctx.frac('y%d' % j, 0, 1) for j, a in enumerate(f2[0])]
    t1, t2 = f1[2] + f1[3] * ctx.frac('t', 0, 1), f2[2] + f2[3] * ctx.frac('u', 0, 1)
    d = [b - a for a, b in zip(x1, x2)]
    lams = (div**d1, 1)
    alts = [AND([up >= v] + [c]) for DX, DT, v in rec.calls for c in leq_ratio(dim, lams, d, t2 - t1, DX, DT)]
    if dim == 1 or not SYM:
        alts += [AND([up >= v, nonlin(dim, d, t2 - t1, DX, DT)]) for DX, DT, v in rec.calls]
    ctx.check(OR(alts), 'the upper bound is at least the ratio of any two points of the fractions')
    far = [MAX([b + f2[1] - a, a + f1[1] - b]) for a, b in zip(f1[0], f2[0])]
    span = f2[2] + f2[3] - f1[2]
    alts = []
    for DX, DT, v in rec.calls:
        alts += [AND([lo <= v, c]) for l in lams for c in [AND([absv(a) <= l * b for a, b in zip(DX, far)] + [DT >= l**dim * span])]]
        if dim == 1 or not SYM:
            alts.append(AND([lo <= v, nonlin(dim, DX, DT, far, span)]))
    ctx.check(OR(alts), 'the lower bound is at most the ratio of the farthest points')


def h_points(ctx, dim, div, d1, d2, n1, n2, few=None):
    from peano.curves import CurvePoint
    from peano.subsets import Point
    est, rec, junc, pos, f1, f2, k1, k2 = setup(ctx, dim, div, d1, d2, few)
    pts = []
    for i, n in ((1, n1), (2, n2)):
        pts.append([(tuple(ctx.frac('p%d_%d_%d' % (i, q, j), 0, 1) for j in range(dim)), ctx.frac('pt%d_%d' % (i, q), 0, 1)) for q in range(n)])
    arg = [tuple(CurvePoint(x=Point(x), t=t) for x, t in ps) for ps in pts]
    lo, up, argmax = est._get_pos_bounds(junc, pos[0], pos[1], arg[0], arg[1])
    real = []
    for (lo0, side, t0, dur), k, ps in ((f1, k1, pts[0]), (f2, k2, pts[1])):
        real.append([([a + side * b for a, b in zip(lo0, ref_x(k, x))], t0 + dur * ref_t(k, t)) for x, t in ps])
    pairs = list(itertools.product(*real))
    lam = div**d1

    def match(call, pair):
        (x1, t1), (x2, t2) = pair
        return AND([EQ(absv(a), lam * absv(c - b)) for a, b, c in zip(call[0], x1, x2)] + [call[1] == lam**dim * (t2 - t1)])

    ctx.check(AND([OR([AND([match(c, p), lo >= c[2]]) for c in rec.calls]) for p in pairs]), 'the lower bound is at least the ratio of each pair of points')
    ctx.check(argmax is not None, 'the best pair of points is reported')
    got = (list(argmax['x1']), argmax['t1'], list(argmax['x2']), argmax['t2'])
    ctx.check(OR([AND([lo == c[2], match(c, p), EQ(got, (list(p[0][0]), p[0][1], list(p[1][0]), p[1][1]))]) for c in rec.calls for p in pairs]), 'the reported pair of points has the ratio of the lower bound')


def h_start(ctx, name, lo, hi, kinds=('l1', 'linf'), points=None):
    """Public API: bounds before any subdivision."""
    from peano.dilation import Estimator
    curve = zoo_curve(name)
    ref = reference(name, kinds)
    w = Var(ctx, 'w', F(lo, 8), F(hi, 8))
    kw = {} if points is None else {'use_face_moments': True, 'face_dim': points}
    res = Estimator(mixed(kinds, w)).estimate_dilation_regular(curve, rel_tol_inv=None, max_iter=0, **kw)
    bracket(ctx, res, ref, w)


def nested(plain, pnum, cnums):
    """Nested cubes of a fraction of a pattern, and its orientation."""
    s, out = (ref_id(plain.dim), pnum), []
    for n in cnums:
        c, s = plain.level1(*s)[n]
        out.append(c)
    return tuple(out), s


def kids_ok(ctx, pair, kids, fuzzy):
    """The pairs got by dividing one of the two fractions: every smaller fraction under every allowed orientation, once."""
    pn = (pair.junc.spec1.pnum, pair.junc.spec2.pnum)
    old = (pair.pos1, pair.pos2)
    G = pair.curve.genus
    ctx.check(len(kids) > 0, 'dividing gives pairs')
    moved = [i for i in (0, 1) if any(len((k.pos1, k.pos2)[i].cnums) != len(old[i].cnums) for k in kids)]
    ctx.check(len(moved) == 1, 'one of the two fractions is divided')
    i = moved[0]
    plain0 = Plain.of(pair.curve)
    _, up = nested(plain0, pn[i], old[i].cnums[:-1])
    last = old[i].cnums[-1]
    where = up[1], (G - 1 - last if up[0][1] else last)     # fraction of the pattern whose orientation is needed
    seen = []
    for k in kids:
        pos, rest = (k.pos1, k.pos2)[i], (k.pos1, k.pos2)[1 - i]
        ctx.check(k.junc == pair.junc, 'junction kept')
        ctx.check(rest.cnums == old[1 - i].cnums and EQ(rest.cubes, old[1 - i].cubes), 'the other fraction is kept')
        ctx.check(pos.cnums[:-1] == old[i].cnums, 'a smaller fraction of the divided one')
        plain = Plain.of(k.curve)
        cubes, _ = nested(plain, pn[i], pos.cnums)
        ctx.check(EQ(pos.cubes, cubes), 'place of the smaller fraction')
        sp = k.curve.patterns[where[0]].specs[where[1]]
        ctx.check(sp is not None, 'the orientation of the divided fraction is known')
        seen.append(((bmkey(sp.base_map), sp.pnum), pos.cnums[-1]))
        if fuzzy:
            a = {(p, c): x[1] for p, pat in enumerate(plain0.patterns) for c, x in enumerate(pat)}
            b = {(p, c): x[1] for p, pat in enumerate(plain.patterns) for c, x in enumerate(pat)}
            ctx.check(all(b[q] == a[q] for q in a if q != where), 'nothing else is fixed')
    want = [((bmkey(sp.base_map), sp.pnum), n) for sp in pair.curve.gen_allowed_specs(*where) for n in range(G)]
    ctx.check(sorted(seen) == sorted(want), 'every smaller fraction under every allowed orientation, once')


def h_divide(ctx, dim, div, mult, steps, nspec=4, nk=4, seed=0):
    """Dividing pairs of fractions of curves with arbitrary cubes and a varied table of orientations."""
    from peano.curves import AutoJunction, RegularJunction
    from peano.dilation import _CurvePiecePair
    G = div**dim
    cubes = [sym_cubes(ctx, 'c%d_' % p, dim, div) for p in range(mult)]
    specs = table(dim, G, mult, ctx.choose('seed', list(range(seed, seed + nspec))))
    curve = mk_curve(dim, div, cubes, specs)
    if ctx.choose('auto', [True, False]):
        p1 = p2 = ctx.choose('p', list(range(mult)))
        junc = AutoJunction(dim=dim, pnum=p1)
        c1 = ctx.choose('c1', list(range(0, G - 2, max(1, G // 4))))
        c2 = ctx.choose('c2', sorted({c1 + 2, G - 1}))
    else:
        k = ctx.choose('k', [mix(dim, 3 * i + seed) for i in range(nk)])
        junc = RegularJunction(spec_of(mix(dim, seed + 1), seed % mult), spec_of(k, (seed + 1) % mult), (1,) + (0,) * (dim - 1))
        c1, c2 = ctx.choose('c1', [0, G - 1]), ctx.choose('c2', [0, G - 2])
    p1, p2 = junc.spec1.pnum, junc.spec2.pnum
    pair = _CurvePiecePair.init_first_order(curve, junc, c1, c2)
    ctx.check(EQ(tuple(pair.pos1.cubes), (cubes[p1][c1],)) and EQ(tuple(pair.pos2.cubes), (cubes[p2][c2],)) and tuple(pair.pos1.cnums) == (c1,) and tuple(pair.pos2.cnums) == (c2,), 'first fractions')
    walk(ctx, pair, steps, False)


def walk(ctx, pair, steps, fuzzy):
    for n in range(steps):
        kids = list(pair.divide_balanced())
        kids_ok(ctx, pair, kids, fuzzy)
        pair = kids[ctx.choose('kid%d' % n, [(5 * n + 1) % len(kids), len(kids) - 1])]
        if not fuzzy:
            got = tuple((bmkey(s.base_map), s.pnum) for s in pair.get_last_specs())
            plain = Plain.of(pair.curve)
            ctx.check(got == (nested(plain, pair.junc.spec1.pnum, pair.pos1.cnums)[1], nested(plain, pair.junc.spec2.pnum, pair.pos2.cnums)[1]), 'orientations of the two fractions')


def h_fuzzydiv(ctx, name, steps, njun=4, ncn=3, fix=()):
    """Dividing pairs of a fuzzy curve: every allowed orientation is tried."""
    from peano.dilation import _CurvePiecePair
    base, fuzzy = continuous_family(name)
    for p, c in fix:
        fuzzy = fuzzy.specify(p, c, base.patterns[p].specs[c])
    js = sorted(((jn_of(j), j.delta_t), n) for n, j in enumerate(list(fuzzy.gen_auto_junctions()) + list(fuzzy.gen_regular_junctions())))
    n = ctx.choose('junc', [q for _, q in js][::max(1, len(js) // njun)])
    junc = (list(fuzzy.gen_auto_junctions()) + list(fuzzy.gen_regular_junctions()))[n]
    G = fuzzy.genus
    c1 = ctx.choose('c1', list(range(0, G - 2, max(1, G // ncn))))
    c2 = ctx.choose('c2', [c1 + 2, G - 1] if c1 + 2 < G - 1 else [G - 1])
    walk(ctx, _CurvePiecePair.init_first_order(fuzzy, junc, c1, c2), steps, True)


def h_cover(ctx, name, free=(), fuzzy=False):
    """The starting pairs are all pairs of first-order fractions that are not adjacent in time, inside a pattern or across a junction."""
    from peano.dilation import Estimator
    base, fz = continuous_family(name)
    if fuzzy:
        curve = fz
        for p, c in free:
            curve = curve.specify(p, c, ctx.choose('f%d_%d' % (p, c), sorted(curve.gen_allowed_specs(p, c), key=lambda s: (bmkey(s.base_map), s.pnum))))
    else:
        curve = mk_curve(base.dim, base.div, [list(p.proto) for p in base.patterns], pick_specs(ctx, fz, base, [tuple(f) for f in free]))
    G = curve.genus
    tree = Estimator(lambda d, dx, dt: Fraction(sum(abs(x) for x in dx)**d, dt))._create_tree(curve)
    got = set()
    for it in tree.items():
        p = it.pair
        got.add((jn_of(p.junc), p.junc.delta_t, tuple(p.pos1.cnums), tuple(p.pos2.cnums)))
        for pos, sp in ((p.pos1, p.junc.spec1), (p.pos2, p.junc.spec2)):
            ctx.check(tuple(pos.cubes) == (tuple(curve.patterns[sp.pnum].proto[pos.cnums[0]]),), 'cube of the fraction')
    ident = ref_id(base.dim)
    want = {(((ident, p), (ident, p), (0,) * base.dim), 0, (a,), (b,)) for p in range(curve.mult) for a in range(G) for b in range(a + 2, G)}
    for j in curve.gen_regular_junctions():
        d = jn_of(j)
        for a in range(G):
            for b in range(G):
                t1, t2 = (G - 1 - a if d[0][0][1] else a), G + (G - 1 - b if d[1][0][1] else b)
                if t2 - t1 > 1:
                    want.add((d, 1, (a,), (b,)))
    ctx.check(got == want, 'the starting pairs are exactly the non-adjacent pairs of every pattern and junction')


EIGHT = [(i, i + 4) for i in (0, 4)]
FAMS = ('get_hilbert_curve', 'get_peano_curve', 'get_beta_omega_curve', 'get_ARW_Curve', 'get_coil_curve', 'get_tokarev_curve', 'get_bauman_curve')
HARNESSES = [
    {'name': 'divide', 'fn': h_divide, 'quick': [{'dim': 1, 'div': 3, 'mult': 3, 'steps': 4}, {'dim': 1, 'div': 5, 'mult': 2, 'steps': 3}, {'dim': 2, 'div': 2, 'mult': 1, 'steps': 5}, {'dim': 2, 'div': 2, 'mult': 4, 'steps': 3, 'seed': 2}, {'dim': 2, 'div': 3, 'mult': 2, 'steps': 3, 'seed': 1}, {'dim': 3, 'div': 2, 'mult': 2, 'steps': 3, 'seed': 3}, {'dim': 4, 'div': 2, 'mult': 1, 'steps': 2, 'nspec': 2, 'nk': 2}],
     'thorough': [{'dim': 2, 'div': 2, 'mult': 2, 'steps': 6, 'nspec': 8, 'nk': 8}, {'dim': 3, 'div': 3, 'mult': 1, 'steps': 2}, {'dim': 4, 'div': 2, 'mult': 1, 'steps': 2}], 'opaque_hash': True},
    {'name': 'fuzzydiv', 'fn': h_fuzzydiv, 'quick': [{'name': n, 'steps': 4 if n == FAMS[0] else 3} for n in FAMS[:3]] + [{'name': n, 'steps': 3, 'fix': [(0, 1), (0, 2), (0, 3)]} for n in FAMS[4:6]],
     'thorough': [{'name': n, 'steps': 5, 'njun': 10, 'ncn': 5} for n in FAMS if n != 'get_ARW_Curve']},
    {'name': 'cover', 'fn': h_cover, 'quick': [{'name': n, 'free': [(0, 0), (0, 2)], 'fuzzy': f} for n in FAMS for f in (False, True) if not (f and n == 'get_ARW_Curve')] + [{'name': 'get_beta_omega_curve', 'free': [(0, 0), (0, 1), (1, 2), (1, 3)]}, {'name': 'get_hilbert_curve', 'free': [(0, c) for c in range(4)]}] + [{'name': n, 'free': []} for n in ('get_neptunus_curve', 'get_spring_curve', 'get_haverkort_curve_f', 'get_peano5_curve', 'get_4d_facet_gated_curve')],
     'thorough': [{'name': n, 'free': [(0, 0), (0, 1), (0, 2), (0, 3)]} for n in FAMS]},
    {'name': 'pair', 'fn': h_pair, 'quick': [{'dim': 1, 'div': 2, 'd1': 1, 'd2': 1}, {'dim': 1, 'div': 3, 'd1': 3, 'd2': 2}, {'dim': 1, 'div': 2, 'd1': 3, 'd2': 3}, {'dim': 2, 'div': 2, 'd1': 2, 'd2': 1}, {'dim': 2, 'div': 3, 'd1': 1, 'd2': 1, 'few': 6}, {'dim': 2, 'div': 2, 'd1': 2, 'd2': 2, 'few': 4}, {'dim': 3, 'div': 2, 'd1': 2, 'd2': 1, 'few': 4}, {'dim': 3, 'div': 2, 'd1': 1, 'd2': 1, 'few': 6}, {'dim': 1, 'div': 5, 'd1': 2, 'd2': 1}, {'dim': 1, 'div': 4, 'd1': 3, 'd2': 2}, {'dim': 1, 'div': 7, 'd1': 2, 'd2': 1}, {'dim': 2, 'div': 4, 'd1': 2, 'd2': 1, 'few': 3}, {'dim': 2, 'div': 5, 'd1': 2, 'd2': 1, 'few': 2}, {'dim': 2, 'div': 3, 'd1': 2, 'd2': 1, 'few': 3}, {'dim': 1, 'div': 2, 'd1': 6, 'd2': 5}, {'dim': 4, 'div': 2, 'd1': 2, 'd2': 1, 'few': 2}, {'dim': 3, 'div': 3, 'd1': 1, 'd2': 1, 'few': 2}, {'dim': 3, 'div': 2, 'd1': 2, 'd2': 2, 'few': 2}, {'dim': 2, 'div': 2, 'd1': 3, 'd2': 3, 'few': 2}],
     'thorough': [{'dim': 1, 'div': 5, 'd1': 4, 'd2': 3}, {'dim': 2, 'div': 2, 'd1': 3, 'd2': 2}, {'dim': 2, 'div': 3, 'd1': 2, 'd2': 2}, {'dim': 2, 'div': 2, 'd1': 3, 'd2': 3}, {'dim': 3, 'div': 3, 'd1': 2, 'd2': 1, 'few': 8}, {'dim': 3, 'div': 2, 'd1': 2, 'd2': 2, 'few': 10}], 'opaque_hash': True},
    {'name': 'points', 'fn': h_points, 'quick': [{'dim': 1, 'div': 2, 'd1': 2, 'd2': 1, 'n1': 1, 'n2': 1}, {'dim': 1, 'div': 3, 'd1': 1, 'd2': 1, 'n1': 2, 'n2': 1}, {'dim': 2, 'div': 2, 'd1': 2, 'd2': 1, 'n1': 1, 'n2': 1, 'few': 3}, {'dim': 2, 'div': 2, 'd1': 1, 'd2': 1, 'n1': 1, 'n2': 2, 'few': 2}, {'dim': 1, 'div': 5, 'd1': 2, 'd2': 1, 'n1': 1, 'n2': 2}, {'dim': 2, 'div': 3, 'd1': 2, 'd2': 1, 'n1': 1, 'n2': 1, 'few': 2}, {'dim': 1, 'div': 2, 'd1': 4, 'd2': 3, 'n1': 1, 'n2': 1}, {'dim': 3, 'div': 2, 'd1': 1, 'd2': 1, 'n1': 1, 'n2': 1, 'few': 3}, {'dim': 3, 'div': 2, 'd1': 2, 'd2': 1, 'n1': 1, 'n2': 1, 'few': 2}],
     'thorough': [{'dim': 2, 'div': 2, 'd1': 2, 'd2': 1, 'n1': 1, 'n2': 1}, {'dim': 2, 'div': 3, 'd1': 2, 'd2': 2, 'n1': 2, 'n2': 1, 'few': 4}, {'dim': 3, 'div': 2, 'd1': 2, 'd2': 1, 'n1': 1, 'n2': 1, 'few': 6}], 'opaque_hash': True},
    {'name': 'start', 'fn': h_start, 'quick': [{'name': n, 'lo': a, 'hi': b} for n in ('get_hilbert_curve', 'get_peano_curve', 'get_beta_omega_curve') for a, b in EIGHT] + [{'name': 'get_hilbert_curve', 'lo': 0, 'hi': 4, 'points': 0}],
     'thorough': [{'name': n, 'lo': a, 'hi': b} for n in ('get_coil_curve', 'get_ARW_Curve', 'get_tokarev_curve') for a, b in EIGHT]},
]
