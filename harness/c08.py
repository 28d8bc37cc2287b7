"""C08: entrance and exit of a curve are exact: they solve the self-similarity equations."""
from symx.api import *
from harness.common import *

FUNCTIONS = ['peano.curves.FuzzyCurve.get_entrance/get_exit/_get_cube_limit/_get_limit_point/_compose_specs', 'peano.utils.get_periodic_sum',
             'peano.paths.Proto.__rmul__', 'peano.curves.Curve.get_paths', 'peano.paths.Path.__init__']
BOUNDS = ('curves whose first and last cubes are arbitrary (symbolic), arbitrary orientation and pattern in the first and last fractions: dim 1..3, div 2..4, '
          '1 pattern (all pairs of orientations in dim <= 2; dim 3: all orientations of one end against 4 of the other), 2-3 patterns with orientations drawn from the full set at one '
          'end per pattern; inner fractions undefined (fuzzy) or defined; chains of up to 12 patterns and dim 4..6 with few orientations per end')
OUTSIDE = 'all combinations of orientations for >= 2 patterns in dim >= 2'
ASSUMPTIONS = ['the system E=(c+B E\')/div has a unique solution (contraction), so satisfying it is being the limit point']


def solve_check(ctx, curve, plain, what):
    """Entrance/exit of all patterns satisfy E_p = (c_0 + B_0 (E|X)_q)/div, X_p = (c_last + B_last (X|E)_q)/div."""
    div = plain.div
    E = [tuple(curve.get_entrance(p)) for p in range(curve.mult)]
    X = [tuple(curve.get_exit(p)) for p in range(curve.mult)]
    for p in range(curve.mult):
        c, (k, q) = plain.patterns[p][0]
        ctx.check(EQ(tuple(v * div for v in E[p]), tuple(a + b for a, b in zip(c, ref_x(k, X[q] if k[1] else E[q])))), what + ': entrance')
        c, (k, q) = plain.patterns[p][-1]
        ctx.check(EQ(tuple(v * div for v in X[p]), tuple(a + b for a, b in zip(c, ref_x(k, E[q] if k[1] else X[q])))), what + ': exit')
    pn = curve.pnum
    ctx.check(EQ(tuple(curve.get_entrance()), E[pn]), what + ': default pattern entrance')
    ctx.check(EQ(tuple(curve.get_exit()), X[pn]), what + ': default pattern exit')
    return E, X


def ends(ctx, dim, div, mult, free, few, chain=False):
    """Fuzzy pattern data with only the boundary fractions defined."""
    G = div**dim
    cubes, specs = [], []
    for p in range(mult):
        cs = sym_cubes(ctx, 'c%d_' % p, dim, div, 2)
        cubes.append([cs[0]] + [None] * (G - 2) + [cs[1]])
        ss = []
        for e in (0, 1):
            name = 's%d%d' % (p, e)
            if (p, e) in free:
                ss.append(any_spec(ctx, name, dim, mult))
            else:
                # chain: the end fractions of a pattern are of the next (previous) pattern, the last one turns back
                to = ((p + 1 if p + 1 < mult else mult // 2) if e == 0 else (p or mult) - 1) if chain else p + e
                ss.append(ctx.choose(name, [(mix(dim, 5 * i + p + 2 * e), (i + to) % mult) for i in range(few)]))
        specs.append([ss[0]] + [None] * (G - 2) + [ss[1]])
    return cubes, specs


def h_fuzzy(ctx, dim, div, mult, free=None, few=2, chain=False):
    from peano.curves import FuzzyCurve
    free = [(p, e) for p in range(mult) for e in (0, 1)] if free is None else [tuple(f) for f in free]
    cubes, specs = ends(ctx, dim, div, mult, free, few, chain)
    pn = ctx.choose('pn', list(range(mult))[1::4] if chain else list(range(mult)))
    f = mk_curve(dim, div, cubes, specs, pn, cls=FuzzyCurve)
    solve_check(ctx, f, Plain.of(f), 'fuzzy curve')


def h_curve(ctx, dim, div, mult):
    """Fully defined curve: same, and the pointed paths carry the gates of every fraction."""
    G = div**dim
    cubes = [sym_cubes(ctx, 'c%d_' % p, dim, div) for p in range(mult)]
    specs = table(dim, G, mult)
    specs[0][0] = any_spec(ctx, 'a', dim, mult)
    specs[mult - 1][-1] = (ctx.choose('b', [mix(dim, i) for i in range(6)]), mult - 1)
    curve = mk_curve(dim, div, cubes, specs, mult - 1)
    plain = Plain.of(curve)
    E, X = solve_check(ctx, curve, plain, 'curve')
    # derived curves, after the original was asked
    m = mix(dim, 3)
    for d in (spec_of(m, 0) * curve, ~curve, curve.get_subdivision(1) if G <= 4 else ~~curve):
        solve_check(ctx, d, Plain.of(d), 'derived curve')
    for p, path in enumerate(curve.get_paths()):
        ctx.check(EQ(tuple(path.proto), tuple(c for c, _ in plain.patterns[p])), 'path prototype')
        for (c, (k, q)), l in zip(plain.patterns[p], path.links):
            e, x = ref_x(k, E[q]), ref_x(k, X[q])
            if k[1]:
                e, x = x, e
            ctx.check(EQ((tuple(l.entrance), tuple(l.exit)), (e, x)), 'gates of the fraction')
        ctx.check(EQ((tuple(path.link.entrance), tuple(path.link.exit)), (E[p], X[p])), 'global gates')


def h_undefined(ctx, dim, div, mult):
    """If a needed orientation or cube is undefined, KeyError is raised rather than a wrong point; unneeded ones do not matter."""
    from peano.curves import FuzzyCurve
    cubes, specs = ends(ctx, dim, div, mult, [(0, 0)], 2)
    hole = ctx.choose('hole', [(p, e) for p in range(mult) for e in (0, 1)])
    kind = ctx.choose('kind', ['spec', 'cube'])
    at = 0 if hole[1] == 0 else -1
    if kind == 'spec':
        specs[hole[0]][at] = None
    else:
        cubes[hole[0]][at] = None
    f = mk_curve(dim, div, cubes, specs, cls=FuzzyCurve)
    plain = Plain.of(f)
    for p in range(mult):
        for e, fn in ((0, f.get_entrance), (1, f.get_exit)):
            # follow the chain of (pattern, end) with plain data
            need, cur = [], (p, e)
            bad = False
            while cur not in need:
                need.append(cur)
                c, s = plain.patterns[cur[0]][0 if cur[1] == 0 else -1]
                if c is None or s is None:
                    bad = True
                    break
                cur = (s[1], cur[1] ^ 1 if s[0][1] else cur[1])
            try:
                fn(p)
                raised = False
            except KeyError:
                raised = True
            ctx.check(raised == bad, 'KeyError exactly when a needed part is undefined')


HARNESSES = [
    {'name': 'fuzzy', 'fn': h_fuzzy,
     'quick': [{'dim': 1, 'div': 2, 'mult': 1}, {'dim': 1, 'div': 3, 'mult': 2, '_w': 9}, {'dim': 2, 'div': 2, 'mult': 1}, {'dim': 2, 'div': 3, 'mult': 1}, {'dim': 2, 'div': 5, 'mult': 1, 'free': [(0, 0)], 'few': 3},
               {'dim': 2, 'div': 2, 'mult': 2, 'free': [(0, 0)], 'few': 2}, {'dim': 2, 'div': 3, 'mult': 3, 'free': [], 'few': 2}, {'dim': 3, 'div': 2, 'mult': 1, 'free': [(0, 0)], 'few': 4}, {'dim': 3, 'div': 2, 'mult': 1, 'free': [(0, 1)], 'few': 4},
               {'dim': 1, 'div': 2, 'mult': 12, 'free': [(11, 0)], 'few': 1, 'chain': True}, {'dim': 1, 'div': 11, 'mult': 5, 'free': [(0, 0), (4, 1)], 'few': 1, 'chain': True}, {'dim': 3, 'div': 3, 'mult': 6, 'free': [], 'few': 1, 'chain': True},
               {'dim': 2, 'div': 2, 'mult': 7, 'free': [(6, 0)], 'few': 1, 'chain': True, '_w': 5}, {'dim': 4, 'div': 2, 'mult': 1, 'free': [], 'few': 12}, {'dim': 4, 'div': 3, 'mult': 3, 'free': [], 'few': 1, 'chain': True}, {'dim': 5, 'div': 2, 'mult': 2, 'free': [], 'few': 3, 'chain': True}, {'dim': 6, 'div': 2, 'mult': 1, 'free': [], 'few': 5}],
     'thorough': [{'dim': 1, 'div': 2, 'mult': 1}, {'dim': 1, 'div': 3, 'mult': 2}, {'dim': 2, 'div': 4, 'mult': 1}, {'dim': 2, 'div': 5, 'mult': 1}, {'dim': 2, 'div': 2, 'mult': 2, 'free': [(0, 0), (1, 1)], 'few': 3},
                  {'dim': 3, 'div': 2, 'mult': 1}, {'dim': 2, 'div': 2, 'mult': 3, 'free': [(2, 0)], 'few': 3}, {'dim': 3, 'div': 3, 'mult': 2, 'free': [(1, 0)], 'few': 3}, {'dim': 4, 'div': 2, 'mult': 1, 'free': [(0, 0)], 'few': 4}]},
    {'name': 'curve', 'fn': h_curve, 'quick': [{'dim': 2, 'div': 2, 'mult': 1}, {'dim': 2, 'div': 2, 'mult': 2}, {'dim': 1, 'div': 4, 'mult': 2}], 'thorough': [{'dim': 2, 'div': 2, 'mult': 3}, {'dim': 2, 'div': 3, 'mult': 2}, {'dim': 3, 'div': 2, 'mult': 1}]},
    {'name': 'undefined', 'fn': h_undefined, 'quick': [{'dim': 2, 'div': 2, 'mult': 1}, {'dim': 1, 'div': 3, 'mult': 2}], 'thorough': [{'dim': 2, 'div': 2, 'mult': 2}, {'dim': 3, 'div': 2, 'mult': 1}, {'dim': 1, 'div': 3, 'mult': 3}]},
]
