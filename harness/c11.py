"""C11: junctions are exactly the pairs of time-adjacent fractions, with least depths; templates describe them for fuzzy curves."""
from symx.api import *
from harness.common import *

FUNCTIONS = ['peano.curves.FuzzyCurve.gen_auto_junctions/_gen_junctions_from_base/_get_base_junction/_get_derived_junction/get_junction_templates/gen_regular_junctions',
             'peano.curves.Curve._gen_base_junctions/gen_regular_junctions/get_depth', 'peano.curves.Junction.__eq__/__hash__', 'peano.curves.RegularJunction.__init__', 'peano.curves.AutoJunction.__init__',
             'peano.curves.FuzzyCurve._specify_allowed/gen_defined_specs']
BOUNDS = ('normal form: arbitrary pair of orientations (dim 1..2 all pairs, dim 3 sampled tables), patterns 0..2, any integer shift; one derivation step: curves with symbolic cubes, any orientation of the end fractions, any junction with symbolic shift; '
          'whole sets: curves of 8 zoo families (dim 2..4, 1..4 patterns) with arbitrary allowed orientations at up to 4 positions; 1-D curves of up to 24 (thorough 30) patterns whose junctions lie as deep as the chain is long; templates: every curve of 5 families at once (orientation of every fraction a solver variable)')
OUTSIDE = 'curves outside these families for the whole-set checks'
ASSUMPTIONS = ['curves are continuous (junction derivation need not terminate otherwise)', 'reference enumeration by breadth-first subdivision in harness/common.py']


def h_normal(ctx, dim, np, few=None):
    """RegularJunction keeps the pair (up to isometry/time reversal) and is in standard form."""
    from peano.curves import RegularJunction
    if few:
        k1, k2 = ctx.choose('k1', [mix(dim, i) for i in range(few)]), ctx.choose('k2', [mix(dim, 3 * i + 1) for i in range(few)])
    else:
        k1, k2 = ctx.base_map_data('k1', dim), ctx.base_map_data('k2', dim)
    p1, p2 = ctx.choose('p1', list(range(np))), ctx.choose('p2', list(range(np)))
    dx = tuple(ctx.int('d%d' % j, -3, 3) for j in range(dim))
    dep = ctx.choose('depth', [None, 5])
    j = RegularJunction(spec_of(k1, p1), spec_of(k2, p2), dx) if dep is None else RegularJunction(spec_of(k1, p1), spec_of(k2, p2), dx, depth=dep)
    r = jn_of(j)
    ctx.check(jn_same(r, ((k1, p1), (k2, p2), dx)), 'same pair of fractions')
    ctx.check(cube_part(r[0][0]) == ref_id(dim), 'first fraction has identity cube map')
    ctx.check(r[0][1] <= r[1][1], 'patterns ordered')
    ctx.check(not (r[0][1] == r[1][1] and r[0][0][1] and r[1][0][1]), 'not both reversed')
    ctx.check(j.delta_t == 1, 'time shift 1')
    ctx.check(j.depth == dep, 'depth kept')


def h_equal(ctx, dim):
    """Junctions equal (and hash equal) exactly when the data are; depth does not matter."""
    from peano.curves import RegularJunction, AutoJunction
    mk = lambda n: (ctx.choose(n + 'k', [mix(dim, i) for i in range(5)]), ctx.choose(n + 'p', [0, 1]))
    a = spec_of(mix(dim, 0)), spec_of(*mk('a')), tuple(ctx.int('x%d' % j, -1, 1) for j in range(dim))
    b = spec_of(mix(dim, 0)), spec_of(*mk('b')), tuple(ctx.int('y%d' % j, -1, 1) for j in range(dim))
    ja, jb = RegularJunction(*a, depth=1), RegularJunction(*b, depth=2)
    same = AND([jn_of(ja)[:2] == jn_of(jb)[:2], EQ(jn_of(ja)[2], jn_of(jb)[2])])
    e = ja == jb
    ctx.check(IFF(e, same), 'equality of junctions')
    if e:
        ctx.check(hash(ja) == hash(jb), 'hash of junctions')
    ctx.check(not (ja == AutoJunction(dim, 0)), 'auto junction differs')


def _ends(ctx, dim, div, mult, few):
    G = div**dim
    cubes, specs = [], []
    for p in range(mult):
        cs = sym_cubes(ctx, 'c%d_' % p, dim, div, 2)
        cubes.append([cs[0]] + [None] * (G - 2) + [cs[1]])
        ss = [ctx.choose('s%d%d' % (p, e), [(mix(dim, 5 * i + p + 2 * e), (i + p + e) % mult) for i in range(few)]) for e in (0, 1)]
        specs.append([ss[0]] + [None] * (G - 2) + [ss[1]])
    return cubes, specs


def h_derive(ctx, dim, div, mult, few, kfew=None):
    """One derivation step from an arbitrary junction."""
    from peano.curves import FuzzyCurve, RegularJunction
    cubes, specs = _ends(ctx, dim, div, mult, few)
    f = mk_curve(dim, div, cubes, specs, cls=FuzzyCurve)
    r1 = ctx.choose('r1', [False, True])
    k2 = ctx.choose('k2', [mix(dim, i) for i in range(kfew)]) if kfew else ctx.base_map_data('k2', dim)
    p1, p2 = ctx.choose('p1', list(range(mult))), ctx.choose('p2', list(range(mult)))
    dx = tuple(ctx.int('d%d' % j, -1, 1) for j in range(dim))
    k1 = (ref_id(dim)[0], r1)
    j = RegularJunction(spec_of(k1, p1), spec_of(k2, p2), dx, depth=4)
    d = f._get_derived_junction(j)
    want = jn_derive(Plain.of(f), ((k1, p1), (k2, p2), dx))
    ctx.check(jn_same(jn_of(d), want), 'derived junction is the last fraction of the first and the first fraction of the second')
    ctx.check(d.depth == 5, 'depth grows by one')


def h_base(ctx, dim, div, mult, few=None):
    G = div**dim
    cubes = [sym_cubes(ctx, 'c%d_' % p, dim, div) for p in range(mult)]
    specs = table(dim, G, mult)
    p, c = ctx.choose('p', list(range(mult))), ctx.choose('c', list(range(G - 1)))
    specs[p][c] = any_spec(ctx, 's', dim, mult, few)
    f = mk_curve(dim, div, cubes, specs)
    j = f._get_base_junction(pnum=p, cnum=c)
    ctx.check(jn_same(jn_of(j), jn_base(Plain.of(f), p, c)), 'base junction')
    ctx.check(j.depth == 1, 'base depth')


def h_line(ctx, mult, b, rev):
    """One-dimensional curves with many patterns: junctions that appear only after many subdivisions."""
    k0 = ref_id(1)
    k1 = (((0, True),), True) if rev else k0
    a = ctx.choose('a', [1, 2, mult // 2])
    mid = ctx.choose('mid', [0, mult - 1])
    specs = [[(k1 if p % 3 == 1 else k0, (p + a) % mult), (k0, mid), (k1 if p % 4 == 2 else k0, (p + 1) % b)] for p in range(mult)]
    curve = mk_curve(1, 3, [[(0,), (1,), (2,)]] * mult, specs)
    curve.check()
    whole_set(ctx, curve)


def h_all(ctx, name, free):
    """The whole set of junctions of a curve, each once, with least depth."""
    base, fuzzy = continuous_family(name)
    specs = pick_specs(ctx, fuzzy, base, [tuple(q) for q in free])
    curve = mk_curve(base.dim, base.div, [list(p.proto) for p in base.patterns], specs)
    data = whole_set(ctx, curve)
    autos = [(jn_of(j), j.delta_t) for j in curve.gen_auto_junctions()]
    idn = ref_id(base.dim)
    ctx.check(sorted(autos) == sorted((((idn, p), (idn, p), (0,) * base.dim), 0) for p in range(base.mult)), 'auto junctions: each pattern with itself')
    # relation between the level-k neighbours and the junctions
    x = ctx.int('n', 0, curve.genus**2 - 2)
    lv = Plain.of(curve).level(ref_id(base.dim), 0, 2)
    i = x.__index__() if base.genus <= 4 else 0
    j = (lv[i][1], lv[i + 1][1], tuple(b - a for a, b in zip(lv[i][0], lv[i + 1][0])))
    ctx.check(jn_canon(j) in set(map(jn_canon, data)), 'every pair of neighbours at depth 2 is a listed junction')


def whole_set(ctx, curve):
    cls, at = jn_all(Plain.of(curve))
    got = list(curve.gen_regular_junctions())
    data = [jn_of(j) for j in got]
    ctx.check(len(set(data)) == len(data), 'no junction twice')
    ctx.check(all(j.delta_t == 1 for j in got), 'time shift 1')
    ctx.check(set(map(jn_canon, data)) == set(cls), 'exactly the pairs of adjacent fractions')
    first = {}
    for j, d in zip(got, data):
        first[jn_canon(d)] = min(j.depth, first.get(jn_canon(d), j.depth))
        ctx.check(jn_canon(d) in at.get(j.depth, ()), 'the pair occurs at the reported depth')
    ctx.check(first == cls, 'every pair is reported at the level where it first appears')
    ctx.check(curve.get_depth() == max(j.depth for j in got), 'depth of the curve is the largest depth of its junctions')
    return data


_tm = {}


def templates(name, fix, warm=True):
    """Run the real template code once per process and family (no symbolic inputs)."""
    key = name, str(fix)
    if key not in _tm:
        base, fuzzy = continuous_family(name)
        if fix:
            if base.dim == 2 and warm:
                fuzzy.get_junction_templates()       # the wider family first
            for p, c, i in fix:
                opts = list(fuzzy.gen_allowed_specs(p, c))
                fuzzy = fuzzy.specify(p, c, opts[i % len(opts)])
        _tm[key] = (base, fuzzy, fuzzy.get_junction_templates())
    return _tm[key]


def h_templates(ctx, name, fix=(), warm=True):
    """For every full curve: it has junction J iff it is consistent with a template of J."""
    base, fuzzy, tm = templates(name, fix, warm)
    dim, G, mult = base.dim, base.genus, base.mult
    ends = {(p, c) for p in range(mult) for c in (0, G - 1)}
    specs, sel = {}, {}
    for p in range(mult):
        for c in range(G):
            specs[p, c] = [(bmkey(s.base_map), s.pnum) for s in fuzzy.gen_allowed_specs(p, c)]
            n = len(specs[p, c])
            sel[p, c] = ctx.choose('e%d_%d' % (p, c), list(range(n))) if (p, c) in ends else ctx.int('s%d_%d' % (p, c), 0, n - 1)
    cubes = [list(pat.proto) for pat in fuzzy.patterns]
    # derivations only need the end fractions
    plain = Plain(dim, base.div, [[(cubes[p][c], specs[p, c][sel[p, c]] if (p, c) in ends else None) for c in range(G)] for p in range(mult)])
    has = {}
    for p in range(mult):
        for c in range(G - 1):
            o1 = range(len(specs[p, c])) if (p, c) not in ends else [sel[p, c]]
            o2 = range(len(specs[p, c + 1])) if (p, c + 1) not in ends else [sel[p, c + 1]]
            dx = tuple(b - a for a, b in zip(cubes[p][c], cubes[p][c + 1]))
            for i1 in o1:
                for i2 in o2:
                    cond = AND([sel[p, c] == i1, sel[p, c + 1] == i2])
                    j = jn_norm((specs[p, c][i1], specs[p, c + 1][i2], dx))
                    seen = set()
                    while j not in seen:
                        seen.add(j)
                        has.setdefault(jn_canon(j), []).append(cond)
                        j = jn_norm(jn_derive(plain, j))
    got = {}
    for junc, curves in tm.items():
        for cv in curves:
            conds = []
            for p, c, s in cv.gen_defined_specs():
                k = (bmkey(s.base_map), s.pnum)
                conds.append(sel[p, c] == specs[p, c].index(k) if k in specs[p, c] else False)
            cond = AND(conds)
            if cond is not False:
                got.setdefault(jn_canon(jn_of(junc)), []).append(cond)
        ctx.check(junc.delta_t == 1, 'time shift')
    for j in set(has) | set(got):
        ctx.check(IFF(OR(has.get(j, [False])), OR(got.get(j, [False]))), 'curve has the junction exactly when it matches a template')
    juncs = [jn_canon(jn_of(j)) for j in fuzzy.gen_regular_junctions()] if ctx.choose('gen', [False, True]) else [jn_canon(jn_of(j)) for j in tm]
    ctx.check(set(has) <= set(juncs), 'gen_regular_junctions lists every junction any curve of the family can have')
    ctx.check(len(set(map(jn_of, tm))) == len(tm), 'no junction twice')


Q = [('get_hilbert_curve', [(0, c) for c in range(4)]), ('get_peano_curve', [(0, 0), (0, 4), (0, 8)]), ('get_beta_omega_curve', [(0, 0), (0, 3), (1, 0), (1, 3)]), ('get_ARW_Curve', [(0, 0), (3, 3)]),
     ('get_tokarev_curve', [(0, 0), (0, 7)]), ('get_neptunus_curve', [(0, 0), (1, 7)]), ('get_haverkort_curve_f', [(0, 0), (0, 7)]), ('get_4d_facet_gated_curve', [])]
HARNESSES = [
    {'name': 'normal', 'fn': h_normal, 'quick': [{'dim': 1, 'np': 3}, {'dim': 2, 'np': 2}, {'dim': 3, 'np': 2, 'few': 12}, {'dim': 4, 'np': 2, 'few': 8}, {'dim': 2, 'np': 4, 'few': 6}, {'dim': 5, 'np': 1, 'few': 8}], 'thorough': [{'dim': 2, 'np': 3}, {'dim': 3, 'np': 2}, {'dim': 4, 'np': 2, 'few': 24}], 'opaque_hash': True},
    {'name': 'equal', 'fn': h_equal, 'quick': [{'dim': 1}, {'dim': 2}, {'dim': 3}], 'thorough': [{'dim': 4}], 'opaque_hash': True},
    {'name': 'derive', 'fn': h_derive, 'quick': [{'dim': 1, 'div': 3, 'mult': 2, 'few': 2}, {'dim': 2, 'div': 2, 'mult': 1, 'few': 6}, {'dim': 2, 'div': 3, 'mult': 2, 'few': 1}, {'dim': 3, 'div': 2, 'mult': 1, 'few': 3, 'kfew': 24}, {'dim': 4, 'div': 2, 'mult': 1, 'few': 3, 'kfew': 8}, {'dim': 2, 'div': 2, 'mult': 3, 'few': 1, 'kfew': 6}, {'dim': 3, 'div': 3, 'mult': 2, 'few': 1, 'kfew': 8}, {'dim': 1, 'div': 7, 'mult': 5, 'few': 1}],
     'thorough': [{'dim': 2, 'div': 2, 'mult': 1, 'few': 16}, {'dim': 2, 'div': 3, 'mult': 2, 'few': 2}, {'dim': 3, 'div': 2, 'mult': 1, 'few': 4}], 'opaque_hash': True},
    {'name': 'base', 'fn': h_base, 'quick': [{'dim': 1, 'div': 4, 'mult': 1}, {'dim': 2, 'div': 2, 'mult': 2}, {'dim': 2, 'div': 3, 'mult': 3, 'few': 4}, {'dim': 3, 'div': 2, 'mult': 2, 'few': 6}, {'dim': 4, 'div': 2, 'mult': 1, 'few': 4}], 'thorough': [{'dim': 2, 'div': 3, 'mult': 2}, {'dim': 3, 'div': 2, 'mult': 1}], 'opaque_hash': True},
    {'name': 'all', 'fn': h_all, 'quick': [{'name': n, 'free': f} for n, f in Q],
     'thorough': [{'name': n, 'free': f} for n, f in Q] + [{'name': n, 'free': [(0, 0), (0, -1)]} for n in ('get_coil_curve', 'get_serpentine_curve', 'get_scepin_bauman_curve', 'get_ye_curve', 'get_3d_l1_best_curve', 'get_haverkort_curve_a26', 'get_iupiter_curve', 'get_luna_curve', 'get_spring_curve', 'get_meurthe_curve')]},
    {'name': 'line', 'fn': h_line, 'quick': [{'mult': 13, 'b': 12, 'rev': False}, {'mult': 9, 'b': 8, 'rev': True}, {'mult': 24, 'b': 23, 'rev': False}], 'thorough': [{'mult': m, 'b': m - 1, 'rev': r} for m in (7, 17, 30) for r in (False, True)]},
    {'name': 'templates', 'fn': h_templates, 'quick': [{'name': n} for n in ('get_hilbert_curve', 'get_coil_curve', 'get_peano_curve', 'get_beta_omega_curve')] + [{'name': 'get_hilbert_curve', 'fix': [(0, 0, 1)]}, {'name': 'get_hilbert_curve', 'fix': [(0, 3, 2), (0, 1, 0)]}, {'name': 'get_beta_omega_curve', 'fix': [(1, 0, 1), (0, 3, 0)]}, {'name': 'get_peano_curve', 'fix': [(0, 4, 3), (0, 8, 1)]}, {'name': 'get_coil_curve', 'fix': [(0, 0, 2)]}]
     + [{'name': 'get_ARW_Curve', 'warm': False, 'fix': [(p, c, p + c) for p in range(4) for c in (0, 3) if (p, c) not in f] + [(p, c, p) for p in range(4) for c in (1, 2) if (p, c) not in f]} for f in ([(3, 1), (3, 2), (2, 2)], [(0, 0), (3, 1), (3, 2)], [(3, 3), (1, 1), (0, 2)])]
     + [{'name': 'get_spring_curve', 'fix': [(p, c, p + c) for p in (0, 1) for c in range(8) if (p, c) not in ((1, 3), (1, 4), (0, 2))]}],
     'thorough': [{'name': n} for n in ('get_hilbert_curve', 'get_coil_curve', 'get_peano_curve', 'get_beta_omega_curve', 'get_scepin_bauman_curve', 'get_haverkort_curve_f', 'get_tokarev_curve')]},
]
