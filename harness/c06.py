"""C06: base maps and specs act on curves, fuzzy curves, paths and prototypes geometrically."""
from symx.api import *
from harness.common import *

FUNCTIONS = ['peano.curves.FuzzyCurve.__rmul__/__invert__/_apply_cube_map/_changed', 'peano.curves.Pattern.__invert__',
             'peano.curves.PathFuzzyCurve.__invert__/_apply_cube_map/_changed/gen_allowed_specs', 'peano.paths.Proto.__rmul__/__invert__',
             'peano.paths.Path.__rmul__/__invert__/__eq__/__lt__/__hash__', 'peano.curves.CurvePoint.__rmul__/scale']
BOUNDS = ('every base map (and pattern choice) applied to: curves of dim 1..3, div 2..3, 1..3 patterns with symbolic prototypes (every cube of every position arbitrary), '
          'an arbitrary spec at any one position and a varied table elsewhere; two consecutive maps (dim 2); paths with arbitrary rational gates (dim 1..2); '
          'fuzzy curves (undefined specs and cubes at arbitrary position) and path-fuzzy curves of 11 zoo curves (6 of them under a table of maps); fractions compared to depth 2; wider: dim 1 div 7 with 5 patterns, div 5, dim 4, dim 3 div 3 with up to 40 varied maps')
OUTSIDE = 'prototype coordinates outside the grid; dim >= 5; simultaneous arbitrary specs at two positions'
ASSUMPTIONS = ['isometry reference semantics in harness/common.py']


def _act(ctx, curve, plain, k, pn, res, what, depth):
    """res must be (k,pn)*curve."""
    got = Plain.of(res)
    ctx.check(res.pnum == pn and res.dim == curve.dim and res.div == curve.div and res.mult == curve.mult and res.genus == curve.genus, what + ': parameters')
    for p in range(curve.mult):
        want = plain.level1(k, p)
        have = [(c, None if s is None else (ref_mul(s[0], k), s[1])) for c, s in got.patterns[p]]
        # orientation of a fraction as a map of the original curve
        want_n = [(c, None if s is None else (cube_part(s[0]), s[0][1], s[1])) for c, s in want]
        have_n = [(c, None if s is None else (cube_part(s[0]), s[0][1], s[1])) for c, s in have]
        same_levels(ctx, have_n, want_n, '%s: pattern %d' % (what, p))
    for d in range(2, depth + 1):
        a = got.level(ref_id(curve.dim), pn, d)
        b = plain.level(k, pn, d)
        ctx.check(EQ(tuple(x[0] for x in a), tuple(x[0] for x in b)), what + ': cubes at depth %d' % d)


def h_curve(ctx, dim, div, mult, depth=2, poss=None, pn0s=None, kfew=None):
    G = div**dim
    specs = table(dim, G, mult)
    cubes = [sym_cubes(ctx, 'c%d_' % p, dim, div) for p in range(mult)]
    if poss is None:
        poss = [(mult - 1, c) for c in range(G)]
    if poss:
        p, c = ctx.choose('pos', [tuple(q) for q in poss])
        specs[p][c] = any_spec(ctx, 's', dim, mult)
    pn0 = ctx.choose('pn0', pn0s or list(range(mult)))
    curve = mk_curve(dim, div, cubes, specs, pn0)
    if kfew:
        k, pn = some_maps(ctx, 'k', dim, kfew), ctx.choose('pn', list(range(mult)))
    else:
        k, pn = any_spec(ctx, 'k', dim, mult)
    plain = Plain.of(curve)
    _act(ctx, curve, plain, k, pn, spec_of(k, pn) * curve, 'spec * curve', depth)
    _act(ctx, curve, plain, k, pn0, spec_of(k).base_map * curve, 'map * curve', depth)
    _act(ctx, curve, plain, ref_rev(ref_id(dim)), pn0, ~curve, '~curve', depth)
    _act(ctx, curve, plain, ref_id(dim), pn0, curve, 'the curve itself is not changed', 1)


def h_two(ctx, dim, div, mult, few=None):
    """(a*b)*f = a*(b*f)."""
    G = div**dim
    curve = mk_curve(dim, div, [sym_cubes(ctx, 'c%d_' % p, dim, div) for p in range(mult)], table(dim, G, mult))
    a, b = any_spec(ctx, 'a', dim, mult, few), any_spec(ctx, 'b', dim, mult, few)
    sa, sb = spec_of(*a), spec_of(*b)
    _act(ctx, curve, Plain.of(curve), ref_mul(a[0], b[0]), a[1], sa * (sb * curve), 'two specs in turn', 1)
    _act(ctx, curve, Plain.of(curve), ref_mul(a[0], b[0]), a[1], (sa * sb) * curve, 'product of specs', 1)


def h_fuzzy(ctx, dim, div, mult, few=None, holes=None):
    from peano.curves import FuzzyCurve
    G = div**dim
    specs = table(dim, G, mult)
    cubes = [sym_cubes(ctx, 'c%d_' % p, dim, div) for p in range(mult)]
    hole = ctx.choose('hole', [(p, c) for p in range(mult) for c in range(G)][::holes or 1])
    kind = ctx.choose('kind', ['spec', 'cube', 'both'])
    if kind != 'cube':
        specs[hole[0]][hole[1]] = None
    if kind != 'spec':
        cubes[hole[0]][hole[1]] = None
    f = mk_curve(dim, div, cubes, specs, cls=FuzzyCurve)
    k, pn = any_spec(ctx, 'k', dim, mult, few)
    _act(ctx, f, Plain.of(f), k, pn, spec_of(k, pn) * f, 'spec * fuzzy', 1)


ZOO2 = ['get_hilbert_curve', 'get_peano_curve', 'get_beta_omega_curve', 'get_ARW_Curve', 'get_coil_curve']


def h_path_fuzzy(ctx, name, few=None):
    """The fuzzy curve built from a mapped curve is the mapped fuzzy curve: allowed orientations are conjugated."""
    from peano import zoo
    base = getattr(zoo, name)().curve
    dim, G = base.dim, base.genus
    # inner cubes are irrelevant to gates: leave them symbolic
    cubes, specs = [], []
    for p, pat in enumerate(base.patterns):
        cs = sym_cubes(ctx, 'c%d_' % p, dim, base.div)
        cs[0], cs[-1] = pat.proto[0], pat.proto[-1]
        cubes.append(cs)
        specs.append([(bmkey(s.base_map), s.pnum) for s in pat.specs])
    curve = mk_curve(dim, base.div, cubes, specs)
    fuzzy = curve.forget()
    k, pn = any_spec(ctx, 'k', dim, base.mult, few)
    inv = ref_inv(cube_part(k))
    chain = ctx.choose('chain', ['direct', 'invert first', 'invert last', 'two maps', 'specified', 'specified after'])
    p0, c0 = base.mult - 1, G // 2
    sp = spec_of(*specs[p0][c0])
    if chain == 'direct':
        res = spec_of(k, pn) * fuzzy
    elif chain == 'invert first':
        res = spec_of(ref_rev(k), pn) * ~fuzzy
    elif chain == 'invert last':
        res = ~(spec_of(ref_rev(k), pn) * fuzzy)
    elif chain == 'two maps':
        b = mix(dim, 5)
        res = spec_of(ref_mul(k, ref_inv(b)), pn) * (spec_of(b, base.mult - 1) * fuzzy)
    elif chain == 'specified':
        res = spec_of(k, pn) * fuzzy.specify(p0, c0, sp)
    else:
        img = spec_of(ref_mul(ref_mul(cube_part(k), bmkey(sp.base_map)), inv), sp.pnum)
        res = (spec_of(k, pn) * fuzzy).specify(p0, G - 1 - c0 if k[1] else c0, img)
    ctx.check(res.pnum == pn, 'selected pattern')
    got = Plain.of(res)
    for p in range(base.mult):
        ctx.check(EQ(tuple(c for c, _ in got.patterns[p]), tuple(c for c, _ in Plain.of(fuzzy).level1(k, p))), 'prototype')
        for c in range(G):
            src = G - 1 - c if k[1] else c
            was = list(fuzzy.gen_allowed_specs(p, src))
            if chain.startswith('specified') and (p, src) == (p0, c0):
                was = [sp]
            want = sorted((ref_mul(ref_mul(cube_part(k), bmkey(s.base_map)), inv), s.pnum) for s in was)
            have = sorted((bmkey(s.base_map), s.pnum) for s in res.gen_allowed_specs(p, c))
            ctx.check(have == want, 'allowed orientations of the mapped fuzzy curve')


def h_path(ctx, dim, div, few=None):
    from peano.paths import Path, Proto
    from peano.subsets import Link, Point
    G = div**dim
    cubes = sym_cubes(ctx, 'c', dim, div)
    links = [Link(Point(ctx.frac('e%d%d' % (i, j)) for j in range(dim)), Point(ctx.frac('x%d%d' % (i, j)) for j in range(dim))) for i in range(G)]
    path = Path(Proto(dim, div, cubes), links)
    plain = [(tuple(l.entrance), tuple(l.exit)) for l in links]
    k = some_maps(ctx, 'k', dim, few)

    def expect(k, res, what):
        order = list(zip(cubes, plain))
        if k[1]:
            order.reverse()
        ctx.check(len(res.proto) == G and len(res.links) == G, what + ': length')
        for (c, (e, x)), c2, l2 in zip(order, res.proto, res.links):
            ie, ix = ref_x(k, e), ref_x(k, x)
            if k[1]:
                ie, ix = ix, ie
            ctx.check(EQ(tuple(c2), ref_cube(k, div, c)), what + ': cubes')
            ctx.check(EQ((tuple(l2.entrance), tuple(l2.exit)), (ie, ix)), what + ': gates of fractions')
        e = tuple((a + b) / div for a, b in zip(cubes[0], plain[0][0]))
        x = tuple((a + b) / div for a, b in zip(cubes[-1], plain[-1][1]))
        ie, ix = ref_x(k, e), ref_x(k, x)
        if k[1]:
            ie, ix = ix, ie
        ctx.check(EQ((tuple(res.link.entrance), tuple(res.link.exit)), (ie, ix)), what + ': global gates')
        ctx.check(res.dim == dim and res.div == div, what + ': parameters')
    expect(ref_id(dim), path, 'path')
    expect(k, spec_of(k).base_map * path, 'map * path')
    expect(ref_rev(ref_id(dim)), ~path, '~path')
    pr = spec_of(k).base_map * path.proto
    order = list(reversed(cubes)) if k[1] else cubes
    ctx.check(EQ(tuple(pr), tuple(ref_cube(k, div, c) for c in order)), 'map * proto')
    ctx.check(EQ(tuple(~path.proto), tuple(reversed(cubes))), '~proto')
    ctx.check(pr.dim == dim and pr.div == div, 'proto parameters')


def h_curve_point(ctx, dim):
    from peano.curves import CurvePoint
    from peano.subsets import Point
    x, t, f = tuple(ctx.frac('x%d' % j) for j in range(dim)), ctx.frac('t'), ctx.frac('f')
    k = ctx.base_map_data('k', dim)
    p = CurvePoint(Point(x), t)
    r = spec_of(k).base_map * p
    ctx.check(EQ(tuple(r.x), ref_x(k, x)) , 'curve point: place')
    ctx.check(EQ(r.t, ref_t(k, t)), 'curve point: time')
    s = p.scale(f)
    fd = 1
    for _ in range(dim):
        fd = fd * f
    ctx.check(EQ(tuple(s.x), tuple(v * f for v in x)), 'scaled place')
    ctx.check(EQ(s.t, t * fd), 'scaled time')


HARNESSES = [
    {'name': 'curve', 'fn': h_curve, 'quick': [{'dim': 1, 'div': 2, 'mult': 1}, {'dim': 1, 'div': 3, 'mult': 3}, {'dim': 2, 'div': 2, 'mult': 1}, *[{'dim': 2, 'div': 2, 'mult': 2, 'poss': [q], 'pn0s': [n], '_w': 9} for q in ((0, 1), (1, 3)) for n in (0, 1)],
                                               {'dim': 2, 'div': 3, 'mult': 1, 'poss': [], 'depth': 1}, {'dim': 3, 'div': 2, 'mult': 1, 'poss': []}, {'dim': 1, 'div': 7, 'mult': 5, 'poss': [(4, 6)], 'pn0s': [2], 'depth': 1}, {'dim': 2, 'div': 5, 'mult': 1, 'poss': [], 'depth': 1}, {'dim': 4, 'div': 2, 'mult': 1, 'poss': [], 'depth': 1, 'kfew': 40}, {'dim': 3, 'div': 3, 'mult': 2, 'poss': [], 'depth': 1, 'kfew': 12}],
     'thorough': [{'dim': 1, 'div': 2, 'mult': 1, 'depth': 3}, {'dim': 1, 'div': 3, 'mult': 3}, {'dim': 2, 'div': 2, 'mult': 1, 'depth': 3}, {'dim': 2, 'div': 2, 'mult': 2}, {'dim': 2, 'div': 2, 'mult': 3, 'poss': [(0, 1), (2, 0)]},
                  {'dim': 2, 'div': 3, 'mult': 1}, {'dim': 3, 'div': 2, 'mult': 1, 'poss': [(0, 0), (0, 5)]}, {'dim': 3, 'div': 2, 'mult': 2, 'poss': []}]},
    {'name': 'two', 'fn': h_two, 'quick': [{'dim': 1, 'div': 2, 'mult': 2}, {'dim': 2, 'div': 2, 'mult': 1}, {'dim': 2, 'div': 2, 'mult': 3, 'few': 5}, {'dim': 3, 'div': 2, 'mult': 2, 'few': 6}, {'dim': 4, 'div': 2, 'mult': 1, 'few': 6}, {'dim': 2, 'div': 3, 'mult': 2, 'few': 6}],
     'thorough': [{'dim': 1, 'div': 3, 'mult': 3}, {'dim': 2, 'div': 2, 'mult': 2}]},
    {'name': 'fuzzy', 'fn': h_fuzzy, 'quick': [{'dim': 1, 'div': 3, 'mult': 2}, {'dim': 2, 'div': 2, 'mult': 2}, {'dim': 2, 'div': 2, 'mult': 4, 'few': 6}, {'dim': 3, 'div': 2, 'mult': 2, 'few': 6, 'holes': 3}, {'dim': 2, 'div': 3, 'mult': 2, 'few': 6, 'holes': 3}, {'dim': 4, 'div': 2, 'mult': 1, 'few': 4, 'holes': 3}], 'thorough': [{'dim': 2, 'div': 2, 'mult': 3}, {'dim': 2, 'div': 3, 'mult': 1}, {'dim': 3, 'div': 2, 'mult': 1}]},
    {'name': 'path_fuzzy', 'fn': h_path_fuzzy, 'quick': [{'name': n} for n in ZOO2] + [{'name': n, 'few': 5} for n in ('get_tokarev_curve', 'get_neptunus_curve', 'get_spring_curve', 'get_peano5_curve', 'get_bauman_curve', 'get_haverkort_curve_f')], 'thorough': [{'name': n} for n in ZOO2 + ['get_tokarev_curve', 'get_neptunus_curve', 'get_peano5_curve']]},
    {'name': 'path', 'fn': h_path, 'quick': [{'dim': 1, 'div': 2}, {'dim': 1, 'div': 3}, {'dim': 2, 'div': 2}, {'dim': 2, 'div': 3, 'few': 6}, {'dim': 3, 'div': 2, 'few': 8}, {'dim': 4, 'div': 2, 'few': 4}], 'thorough': [{'dim': 1, 'div': 5}, {'dim': 2, 'div': 3}, {'dim': 3, 'div': 2}]},
    {'name': 'curve_point', 'fn': h_curve_point, 'quick': [{'dim': 1}, {'dim': 2}, {'dim': 3}, {'dim': 4}]},
]
