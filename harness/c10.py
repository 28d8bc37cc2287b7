"""C10: curve equality/hash tell exactly the same curves apart; continuity test is exact."""
from symx.api import *
from harness.common import *

FUNCTIONS = ['peano.curves.Curve.__eq__/__hash__/check/get_paths/parse', 'peano.paths.Path.is_continuous/__eq__/__hash__/__lt__/__init__', 'peano.subsets.Point.intersects/transform']
BOUNDS = ('equality: pairs of curves with symbolic prototypes (any cubes) and an arbitrary pair of orientations at one position, dim 1..4, div 2..5, 1..4 patterns, any selected patterns; curves and paths of different shapes; '
          'continuity: paths with arbitrary rational gates and arbitrary cubes, dim 1..3, div 2..3; curves with arbitrary first/last cubes and a break placed anywhere, also only in patterns reached indirectly (chains of 3 patterns)')
OUTSIDE = 'larger dims'
ASSUMPTIONS = ['quicktions.Fraction is exact rational arithmetic']


def _same_specs(a, b):
    return all([(bmkey(s.base_map), s.pnum) for s in p.specs] == [(bmkey(s.base_map), s.pnum) for s in q.specs] for p, q in zip(a.patterns, b.patterns))


def h_equal(ctx, dim, div, mult, few=None):
    """a == b iff same prototypes, same orientations, same selected pattern."""
    G = div**dim
    n = min(3, G)      # symbolic cubes per pattern (first, middle, last), the rest shared
    fixed = [[(0,) * dim] * G for _ in range(mult)]
    ca, cb = [], []
    for p in range(mult):
        a = sym_cubes(ctx, 'a%d_' % p, dim, div, n)
        b = sym_cubes(ctx, 'b%d_' % p, dim, div, n)
        rest = [tuple((i + j + p) % div for j in range(dim)) for i in range(G - n)]
        h = len(rest) // 2
        ca.append(a[:n - 2] + rest[:h] + a[n - 2:n - 1] + rest[h:] + a[n - 1:])
        cb.append(b[:n - 2] + rest[:h] + b[n - 2:n - 1] + rest[h:] + b[n - 1:])
    sa, sb = table(dim, G, mult), table(dim, G, mult)
    p, c = ctx.choose('pos', [(p, c) for p in range(mult) for c in sorted({0, G // 2, G - 1})])
    some = lambda n: ctx.choose(n, [(mix(dim, i), i % mult) for i in range(few)] ) if few else any_spec(ctx, n, dim, mult)
    sa[p][c] = some('s')
    sb[p][c] = some('r') if ctx.choose('other', [False, True]) else sa[p][c]
    pa, pb = ctx.choose('pa', list(range(mult))), ctx.choose('pb', list(range(mult)))
    x, y = mk_curve(dim, div, ca, sa, pa), mk_curve(dim, div, cb, sb, pb)
    same = AND([sa == sb, pa == pb, EQ(tuple(map(tuple, ca)), tuple(map(tuple, cb)))])
    e = x == y
    ctx.check(IFF(e, same), 'equal exactly when prototypes, orientations and selected pattern are equal')
    ctx.check(IFF(x != y, NOT(e)), '!= is the negation')
    ctx.check(IFF(y == x, e), 'symmetric')
    hx = hash(x)
    if e:
        ctx.check(hx == hash(y), 'equal curves hash equally')


def h_equal_inv(ctx, dim, div, mult, few=None):
    """The reversed curve equals the curve exactly when its data is the same; reversed twice is the curve."""
    G = div**dim
    cubes = [[tuple((i + j + p) % div for j in range(dim)) for i in range(G)] for p in range(mult)]
    cubes = [a + (b if ctx.choose('pal%d' % p, [False, True]) else a[::-1]) for p, (a, b) in enumerate((c[:G // 2], c[G // 2:]) for c in cubes)] if G % 2 == 0 else cubes
    for p in range(mult):
        cubes[p][0] = sym_cubes(ctx, 'a%d_' % p, dim, div, 1)[0]
    specs = table(dim, G, mult)
    p, c = ctx.choose('pos', [(p, c) for p in range(mult) for c in sorted({0, G // 2, G - 1})])
    specs[p][c] = ctx.choose('s', [(mix(dim, i), i % mult) for i in range(few)]) if few else any_spec(ctx, 's', dim, mult)
    if ctx.choose('sym', [False, True]):
        # specs made palindromic up to time reversal, so that the reversed curve may be the curve itself
        specs = [[specs[q][i] if i < (G + 1) // 2 else ((specs[q][G - 1 - i][0][0], not specs[q][G - 1 - i][0][1]), specs[q][G - 1 - i][1]) for i in range(G)] for q in range(mult)]
    x = mk_curve(dim, div, cubes, specs, ctx.choose('pn', list(range(mult))))
    inv = ~x
    back = ~inv
    ctx.check(back == x and hash(back) == hash(x), 'reversed twice')
    ctx.check(IFF(inv == x, AND([EQ(tuple(map(tuple, cubes)), tuple(tuple(reversed(c)) for c in cubes)), bool(_same_specs(inv, x))])), 'reversed curve is another curve unless it has the same data')


def h_shape(ctx, dim):
    """Curves and paths of different shapes (patterns, division, dimension, number of fractions) are different."""
    from peano.paths import Path, Proto
    from peano.subsets import Link, Point
    shapes = [(d, v, m) for d in (dim, dim + 1) for v in (2, 3) for m in (1, 2, 3)]
    a, b = ctx.choose('a', shapes), ctx.choose('b', shapes)
    pa, pb = ctx.choose('pa', [0, a[2] - 1]), ctx.choose('pb', [0, b[2] - 1])
    cubes, curves, paths = sym_cubes(ctx, 'c', dim + 1, 2, 4), [], []
    for (d, v, m), pn in ((a, pa), (b, pb)):
        cs = [[cubes[i % 4][:d] for i in range(v**d)] for _ in range(m)]
        sp = [[((ref_id(d)[0], bool(i % 2)), 0) for i in range(v**d)] for _ in range(m)]
        curves.append(mk_curve(d, v, cs, sp, pn))
        paths.append(Path(Proto(d, v, cs[0]), [Link(Point((Fraction(0),) * d), Point((Fraction(1),) * d))] * v**d))
    x, y = curves
    ctx.check(IFF(x == y, (a, pa) == (b, pb)), 'equal only for the same shape and selected pattern')
    ctx.check(IFF(x != y, (a, pa) != (b, pb)), 'different for different shapes')
    ctx.check(IFF(paths[0] == paths[1], a[:2] == b[:2]), 'paths equal only for the same shape')
    if (a, pa) == (b, pb):
        ctx.check(hash(x) == hash(y), 'equal curves hash equally')


def h_path_eq(ctx, dim, div):
    """Path equality and order."""
    from peano.paths import Path, Proto
    from peano.subsets import Link, Point
    G = div**dim
    ps, data = [], []
    for n in 'ab':
        cubes = sym_cubes(ctx, n, dim, div)
        links = [(tuple(ctx.frac('%se%d%d' % (n, i, j)) for j in range(dim)), tuple(ctx.frac('%sx%d%d' % (n, i, j)) for j in range(dim))) for i in range(G)]
        ps.append(Path(Proto(dim, div, cubes), [Link(Point(e), Point(x)) for e, x in links]))
        data.append((tuple(cubes), tuple(links)))
    e = ps[0] == ps[1]
    ctx.check(IFF(e, EQ(data[0], data[1])), 'paths equal exactly when prototypes and gates are')
    if e:
        ctx.check(hash(ps[0]) == hash(ps[1]), 'equal paths hash equally')
    ctx.check(NOT(AND([ps[0] < ps[1], ps[1] < ps[0]])), 'order is antisymmetric')
    ctx.check(OR([ps[0] < ps[1], ps[1] < ps[0], e]), 'order is total')


def h_cont(ctx, dim, div):
    """is_continuous iff each exit is the next entrance."""
    from peano.paths import Path, Proto
    from peano.subsets import Link, Point
    G = div**dim
    cubes = sym_cubes(ctx, 'c', dim, div)
    links = [(tuple(ctx.frac('e%d%d' % (i, j)) for j in range(dim)), tuple(ctx.frac('x%d%d' % (i, j)) for j in range(dim))) for i in range(G)]
    path = Path(Proto(dim, div, cubes), [Link(Point(e), Point(x)) for e, x in links])
    want = AND([EQ(tuple(c + v for c, v in zip(cubes[i], links[i][1])), tuple(c + v for c, v in zip(cubes[i + 1], links[i + 1][0]))) for i in range(G - 1)])
    ctx.check(IFF(path.is_continuous(), want), 'continuous exactly when exits meet entrances')


def h_check(ctx, dim, div, mult, few, chain=False):
    """Curve.check raises exactly for discontinuous curves (every pattern counts)."""
    G = div**dim
    cubes = [sym_cubes(ctx, 'c%d_' % p, dim, div) for p in range(mult)]
    specs = [[None] * G for _ in range(mult)]
    for p in range(mult):
        for c in range(G):
            if c in (0, G - 1):
                specs[p][c] = ctx.choose('s%d%d' % (p, c), [(mix(dim, 3 * i + p + c), (i + p) % mult) for i in range(few)])
            else:
                specs[p][c] = (mix(dim, 2 * c + p), (p + c) % mult)
    if chain:
        # pattern p uses pattern p+1 only: the last pattern is reached from the first through all others
        specs = [[(k, min(p + 1, mult - 1)) for k, _ in row] for p, row in enumerate(specs)]
    curve = mk_curve(dim, div, cubes, specs, ctx.choose('pn', list(range(mult))))
    E = [tuple(curve.get_entrance(p)) for p in range(mult)]
    X = [tuple(curve.get_exit(p)) for p in range(mult)]
    conds = []
    for p in range(mult):
        gates = []
        for k, q in specs[p]:
            e, x = ref_x(k, E[q]), ref_x(k, X[q])
            gates.append((x, e) if k[1] else (e, x))
        for i in range(G - 1):
            conds.append(EQ(tuple(a + b for a, b in zip(cubes[p][i], gates[i][1])), tuple(a + b for a, b in zip(cubes[p][i + 1], gates[i + 1][0]))))
    want = AND(conds)
    try:
        curve.check()
        ok = True
    except ValueError:
        ok = False
    ctx.check(IFF(ok, want), 'check() raises ValueError exactly when some pattern is discontinuous')


def h_break(ctx, name, few=None):
    """A continuous zoo curve with one orientation replaced: check() accepts exactly the replacements with the same gates."""
    from peano import zoo
    base = getattr(zoo, name)().curve
    dim, G = base.dim, base.genus
    base.check()
    p, c = ctx.choose('pos', [(p, c) for p in range(base.mult) for c in sorted({1, G // 2, G - 2})])
    k, q = any_spec(ctx, 's', dim, base.mult, few)
    specs = [[(bmkey(s.base_map), s.pnum) for s in pat.specs] for pat in base.patterns]
    old = specs[p][c]
    specs[p][c] = (k, q)
    curve = mk_curve(dim, base.div, [list(pat.proto) for pat in base.patterns], specs)
    g = lambda s: (lambda e, x: (x, e) if s[0][1] else (e, x))(ref_x(s[0], tuple(base.get_entrance(s[1]))), ref_x(s[0], tuple(base.get_exit(s[1]))))
    try:
        curve.check()
        ok = True
    except ValueError:
        ok = False
    ctx.check(IFF(ok, EQ(g((k, q)), g(old))), 'replacing an inner orientation keeps continuity exactly when the gates stay')


HARNESSES = [
    {'name': 'equal', 'fn': h_equal, 'quick': [{'dim': 1, 'div': 2, 'mult': 2}, {'dim': 2, 'div': 2, 'mult': 1}, {'dim': 1, 'div': 3, 'mult': 3, 'few': 2}, {'dim': 3, 'div': 2, 'mult': 2, 'few': 2}, {'dim': 2, 'div': 3, 'mult': 2, 'few': 2}, {'dim': 1, 'div': 5, 'mult': 4, 'few': 1}, {'dim': 4, 'div': 2, 'mult': 1, 'few': 3}],
     'thorough': [{'dim': 1, 'div': 3, 'mult': 3}, {'dim': 2, 'div': 2, 'mult': 2}, {'dim': 3, 'div': 2, 'mult': 1}, {'dim': 2, 'div': 3, 'mult': 1}], 'opaque_hash': True},
    {'name': 'equal_inv', 'fn': h_equal_inv, 'quick': [{'dim': 1, 'div': 2, 'mult': 2}, {'dim': 2, 'div': 2, 'mult': 1}, {'dim': 1, 'div': 3, 'mult': 2}, {'dim': 2, 'div': 2, 'mult': 2, 'few': 4}, {'dim': 3, 'div': 2, 'mult': 2, 'few': 4}, {'dim': 2, 'div': 3, 'mult': 1, 'few': 6}, {'dim': 1, 'div': 4, 'mult': 4, 'few': 3}],
     'thorough': [{'dim': 3, 'div': 2, 'mult': 1}, {'dim': 2, 'div': 3, 'mult': 1}], 'opaque_hash': True},
    {'name': 'shape', 'fn': h_shape, 'quick': [{'dim': 1}, {'dim': 2}], 'opaque_hash': True},
    {'name': 'path_eq', 'fn': h_path_eq, 'quick': [{'dim': 1, 'div': 2}, {'dim': 1, 'div': 3}, {'dim': 2, 'div': 2}, {'dim': 2, 'div': 3}, {'dim': 3, 'div': 2}], 'thorough': [{'dim': 1, 'div': 5}], 'opaque_hash': True},
    {'name': 'cont', 'fn': h_cont, 'quick': [{'dim': 1, 'div': 4}, {'dim': 2, 'div': 2}, {'dim': 2, 'div': 3}, {'dim': 3, 'div': 2}, {'dim': 2, 'div': 4}, {'dim': 4, 'div': 2}, {'dim': 1, 'div': 11}], 'thorough': [{'dim': 2, 'div': 5}, {'dim': 3, 'div': 3}]},
    {'name': 'check', 'fn': h_check, 'quick': [{'dim': 1, 'div': 3, 'mult': 2, 'few': 3}, {'dim': 2, 'div': 2, 'mult': 1, 'few': 8}, {'dim': 2, 'div': 2, 'mult': 2, 'few': 2}, {'dim': 1, 'div': 3, 'mult': 3, 'few': 2, 'chain': True}, {'dim': 3, 'div': 2, 'mult': 1, 'few': 4}, {'dim': 2, 'div': 2, 'mult': 4, 'few': 1, 'chain': True}, {'dim': 2, 'div': 3, 'mult': 1, 'few': 4}, {'dim': 1, 'div': 2, 'mult': 6, 'few': 1, 'chain': True}],
     'thorough': [{'dim': 2, 'div': 2, 'mult': 2, 'few': 4}, {'dim': 2, 'div': 3, 'mult': 1, 'few': 8}, {'dim': 1, 'div': 4, 'mult': 3, 'few': 3}]},
    {'name': 'break', 'fn': h_break, 'quick': [{'name': n} for n in ('get_hilbert_curve', 'get_peano_curve', 'get_beta_omega_curve', 'get_ARW_Curve')] + [{'name': n, 'few': 24} for n in ('get_tokarev_curve', 'get_neptunus_curve', 'get_peano5_curve', 'get_spring_curve', 'get_haverkort_curve_f')],
     'thorough': [{'name': n} for n in ('get_hilbert_curve', 'get_peano_curve', 'get_beta_omega_curve', 'get_ARW_Curve', 'get_tokarev_curve', 'get_neptunus_curve', 'get_peano5_curve')]},
]
