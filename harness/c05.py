"""C05: points and facet subsets mean sets of points; every operation on them is the set operation."""
import itertools
from symx.api import *
from harness.common import *

FUNCTIONS = ['peano.subsets.Point.transform/map_to_cube/gen_neighbours/divide/_gen_integer_cubes/__rmul__/intersects/face_dim',
             'peano.subsets.FacetDivSubset.__rmul__/_map_facet/_abs_to_facet/intersects/map_to_cube/gen_neighbours/divide/__eq__/__hash__/__lt__']
BOUNDS = ('points k/D with -2D<=k<=3D, D in {1,2,3,6} dim 1..2 (dim 3: D=2, in [0,1]); div 2..4; facet subsets dim 2..3, div 2..4, nesting 0..2 (action of isometries: 0..5; thorough 3), '
          'membership tested at every real point')
OUTSIDE = 'points whose denominators do not divide the grid; higher dims'
ASSUMPTIONS = ['quicktions.Fraction is exact rational arithmetic']


def pt(ctx, name, dim, D, lo, hi):
    from peano.subsets import Point
    return Point(ctx.frac('%s%d' % (name, j), lo, hi, D=D) for j in range(dim))


def h_transform(ctx, dim, few=None):
    from peano.subsets import Point
    p = Point(ctx.frac('p%d' % j) for j in range(dim))
    s = ctx.frac('s')
    v = [ctx.frac('v%d' % j) for j in range(dim)]
    c = [ctx.int('c%d' % j) for j in range(dim)]
    div = ctx.choose('div', [2, 3, 5])
    ctx.check(EQ(tuple(p.transform(scale=s, shift=v)), tuple(x * s + y for x, y in zip(p, v))), 'scale and shift')
    ctx.check(EQ(tuple(p.transform(scale=s)), tuple(x * s for x in p)), 'scale')
    ctx.check(EQ(tuple(p.transform(shift=c)), tuple(x + y for x, y in zip(p, c))), 'shift')
    ctx.check(EQ(tuple(p.transform()), tuple(p)), 'no change')
    ctx.check(EQ(tuple(p.map_to_cube(div, c)), tuple((x + y) / div for x, y in zip(p, c))), 'map_to_cube')
    ctx.check(EQ(p.face_dim(), sum(ITE(OR([x == 0, x == 1]), 0, 1) for x in p)), 'face_dim counts free coordinates')
    a = spec_of(some_maps(ctx, 'a', dim, few)).base_map
    ctx.check(EQ(tuple(a * p), ref_x(bmkey(a), tuple(p))), 'isometry acts on points')
    q = Point(ctx.frac('q%d' % j) for j in range(dim))
    ctx.check(IFF(p.intersects(q), EQ(tuple(p), tuple(q))), 'points intersect iff equal')
    ctx.check(p.dim == dim, 'dim')


def _distinct(cubes):
    return AND([NOT(EQ(a, b)) for a, b in itertools.combinations(cubes, 2)])


def h_neigh(ctx, dim, D, lo, hi):
    """gen_neighbours: exactly the unit cubes other than [0,1]^d that contain the point, with the point relative to each."""
    p = pt(ctx, 'p', dim, D, lo, hi)
    got = [(tuple(c), q) for c, q in p.gen_neighbours()]
    ctx.check(_distinct([c for c, _ in got]), 'no cube twice')
    for c, q in got:
        ctx.check(EQ(tuple(q), tuple(x - y for x, y in zip(p, c))), 'relative point')
    c = tuple(ctx.int('c%d' % j) for j in range(dim))
    inside = AND([AND([y <= x, x <= y + 1]) for x, y in zip(p, c)])
    ctx.check(IFF(OR([EQ(c, g) for g, _ in got]), AND([inside, NOT(EQ(c, (0,) * dim))])), 'exactly the neighbour cubes containing the point')


def h_divide(ctx, dim, D, div):
    """divide: exactly the div-cubes of [0,1]^d that contain the point, with the point relative to each."""
    p = pt(ctx, 'p', dim, D, 0, 1)
    for c, q in p.divide(div + 1):       # an earlier query with another grid
        ctx.check(EQ(tuple(q), tuple(x * (div + 1) - y for x, y in zip(p, c))), 'relative point in another grid')
    got = [(tuple(c), q) for c, q in p.divide(div)]
    ctx.check(_distinct([c for c, _ in got]), 'no cube twice')
    for c, q in got:
        ctx.check(EQ(tuple(q), tuple(x * div - y for x, y in zip(p, c))), 'relative point')
    c = tuple(ctx.int('c%d' % j, 0, div - 1) for j in range(dim))
    inside = AND([AND([y <= x * div, x * div <= y + 1]) for x, y in zip(p, c)])
    ctx.check(IFF(OR([EQ(c, g) for g, _ in got]), inside), 'exactly the cubes containing the point')
    ctx.check(AND([AND([AND([0 <= y, y < div]) for y in g]) for g, _ in got]), 'cubes are inside')
    for g, q in got:
        ctx.check(EQ(tuple(q.map_to_cube(div, g)), tuple(p)), 'mapping back gives the point')


def member(s, x, div):
    """x in the facet subset (open relative to the facet)."""
    fc, fv = s.facet
    rest = [x[j] for j in range(s.dim) if j != fc]
    conds = [x[fc] == fv]
    base, size = [0] * len(rest), 1
    conds += [AND([0 < y, y < 1]) for y in rest]
    scale = 1
    acc = [0] * len(rest)
    for c in s.cubes:
        scale *= div
        acc = [a * div + cj for a, cj in zip(acc, c)]
        conds += [AND([a < y * scale, y * scale < a + 1]) for a, y in zip(acc, rest)]
    return AND(conds)


def rpt(ctx, name, dim):
    return tuple(ctx.frac('%s%d' % (name, j), -1, 2) for j in range(dim))


def h_facet_action(ctx, dim, div, n):
    s = facet(ctx, 's', dim, div, n)
    a = ctx.base_map('a', dim, time_rev=False)
    x = rpt(ctx, 'x', dim)
    r = a * s
    ctx.check(r.dim == dim and r.div == div and len(r.cubes) == n, 'shape')
    ctx.check(IFF(member(r, ref_x(bmkey(a), x), div), member(s, x, div)), 'x in S iff a x in a S')


def h_facet_map(ctx, dim, div, n):
    s = facet(ctx, 's', dim, div, n)
    fc, fv = s.facet
    c = tuple(ctx.int('c%d' % j, 0, div - 1) for j in range(dim))
    ctx.assume(c[fc] == (0 if fv == 0 else div - 1))
    x = rpt(ctx, 'x', dim)
    ctx.assume(AND([AND([0 <= v, v <= 1]) for v in x]))
    r = s.map_to_cube(div, c)
    ctx.check(IFF(member(r, tuple((v + cj) / div for v, cj in zip(x, c)), div), member(s, x, div)), 'map_to_cube is the similarity onto the cube')
    y = rpt(ctx, 'y', dim)
    ctx.check(IMP(member(r, y, div), AND([AND([cj <= v * div, v * div <= cj + 1]) for v, cj in zip(y, c)])), 'image lies in the cube')


def h_facet_neigh(ctx, dim, div, n):
    """Exactly one neighbour cube contains the (relatively open) set: the one across the facet; the portion is the whole set."""
    s = facet(ctx, 's', dim, div, n)
    got = [(tuple(c), t) for c, t in s.gen_neighbours()]
    x = rpt(ctx, 'x', dim)
    c = tuple(ctx.int('c%d' % j, -2, 2) for j in range(dim))
    ctx.assume(NOT(EQ(c, (0,) * dim)))
    inside = AND([AND([y <= v, v <= y + 1]) for v, y in zip(x, c)])
    want = AND([member(s, x, div), inside])
    ctx.check(_distinct([g for g, _ in got]), 'no cube twice')
    ctx.check(IFF(OR([AND([EQ(c, g), member(t, tuple(v - y for v, y in zip(x, g)), div)]) for g, t in got]), want), 'portion of S in each neighbour cube')


def h_facet_divide(ctx, dim, div, n):
    s = facet(ctx, 's', dim, div, n)
    got = [(tuple(c), t) for c, t in s.divide(div)]
    x = rpt(ctx, 'x', dim)
    c = tuple(ctx.int('c%d' % j, 0, div - 1) for j in range(dim))
    fc, fv = s.facet
    # strictly inside the cube along the facet (walls between cubes are not part of any portion)
    inside = AND([AND([y < v * div, v * div < y + 1]) if j != fc else AND([y <= v * div, v * div <= y + 1])
                  for j, (v, y) in enumerate(zip(x, c))])
    ctx.check(_distinct([g for g, _ in got]), 'no cube twice')
    ctx.check(IFF(OR([AND([EQ(c, g), member(t, tuple(v * div - y for v, y in zip(x, g)), div)]) for g, t in got]),
                  AND([member(s, x, div), inside])), 'fraction of S in each cube')
    ctx.check(AND([AND([AND([0 <= y, y < div]) for y in g]) for g, _ in got]), 'cubes are inside')
    for g, t in got:
        ctx.check(t.map_to_cube(div, g).intersects(s), 'the fraction put back intersects S')


def h_facet_meet(ctx, dim, div, n1, n2):
    s, t = facet(ctx, 's', dim, div, n1), facet(ctx, 't', dim, div, n2)
    m = s.intersects(t)
    ctx.check(IFF(m, t.intersects(s)), 'symmetric')
    x = rpt(ctx, 'x', dim)
    deep = s if n1 >= n2 else t
    fc, fv = deep.facet
    size, acc = 1, [0] * (dim - 1)
    for c in deep.cubes:
        size *= div
        acc = [a * div + cj for a, cj in zip(acc, c)]
    mid = [(a + Fraction(1, 2)) / size for a in acc]
    centre = tuple(mid[:fc]) + (Fraction(fv),) + tuple(mid[fc:])
    both = lambda y: AND([member(s, y, div), member(t, y, div)])
    ctx.check(IMP(both(x), m), 'a common point means intersects')
    ctx.check(IMP(m, both(centre)), 'intersects means a common point')
    ctx.check(IFF(s == t, AND([s.facet == t.facet, n1 == n2] + [EQ(a, b) for a, b in zip(s.cubes, t.cubes)])), 'equality')


HARNESSES = [
    {'name': 'transform', 'fn': h_transform, 'quick': [{'dim': 1}, {'dim': 2}, {'dim': 3, 'few': 12}, {'dim': 4, 'few': 6}, {'dim': 5, 'few': 4}]},
    {'name': 'neigh', 'fn': h_neigh, 'quick': [{'dim': 1, 'D': 6, 'lo': -2, 'hi': 3}, {'dim': 2, 'D': 2, 'lo': -2, 'hi': 3}, {'dim': 2, 'D': 3, 'lo': 0, 'hi': 1}, {'dim': 3, 'D': 2, 'lo': 0, 'hi': 1}, {'dim': 4, 'D': 1, 'lo': 0, 'hi': 1}, {'dim': 1, 'D': 2, 'lo': -12, 'hi': 12}],
     'thorough': [{'dim': 1, 'D': 12, 'lo': -3, 'hi': 4}, {'dim': 2, 'D': 6, 'lo': -2, 'hi': 3}, {'dim': 3, 'D': 3, 'lo': 0, 'hi': 1}, {'dim': 4, 'D': 2, 'lo': 0, 'hi': 1}]},
    {'name': 'divide', 'fn': h_divide, 'quick': [{'dim': 1, 'D': 12, 'div': 2}, {'dim': 1, 'D': 12, 'div': 3}, {'dim': 2, 'D': 4, 'div': 2}, {'dim': 2, 'D': 3, 'div': 3}, {'dim': 3, 'D': 2, 'div': 2}, {'dim': 1, 'D': 11, 'div': 11}, {'dim': 2, 'D': 5, 'div': 5}, {'dim': 4, 'D': 1, 'div': 2}, {'dim': 1, 'D': 24, 'div': 12}],
     'thorough': [{'dim': 1, 'D': 24, 'div': v} for v in (2, 3, 4, 5)] + [{'dim': 2, 'D': 12, 'div': v} for v in (2, 3, 4)] + [{'dim': 3, 'D': 6, 'div': 2}]},
    {'name': 'facet_action', 'fn': h_facet_action, 'quick': [{'dim': 2, 'div': 3, 'n': 2}, {'dim': 3, 'div': 2, 'n': 1}, {'dim': 2, 'div': 2, 'n': 5}, {'dim': 2, 'div': 3, 'n': 4}, {'dim': 3, 'div': 2, 'n': 3}, {'dim': 3, 'div': 3, 'n': 2}, {'dim': 4, 'div': 2, 'n': 1}, {'dim': 2, 'div': 11, 'n': 2}],
     'thorough': [{'dim': 2, 'div': v, 'n': n} for v in (2, 3, 4) for n in (0, 1, 2, 3)] + [{'dim': 3, 'div': v, 'n': n} for v in (2, 3) for n in (0, 1, 2)]},
    {'name': 'facet_map', 'fn': h_facet_map, 'quick': [{'dim': 2, 'div': 3, 'n': 1}, {'dim': 3, 'div': 2, 'n': 1}, {'dim': 3, 'div': 3, 'n': 0}, {'dim': 4, 'div': 2, 'n': 1}, {'dim': 2, 'div': 7, 'n': 2}, {'dim': 2, 'div': 2, 'n': 4}],
     'thorough': [{'dim': d, 'div': v, 'n': n} for d in (2, 3) for v in (2, 3) for n in (0, 1, 2)]},
    {'name': 'facet_neigh', 'fn': h_facet_neigh, 'quick': [{'dim': 2, 'div': 2, 'n': 1}, {'dim': 3, 'div': 2, 'n': 1}, {'dim': 4, 'div': 2, 'n': 1}, {'dim': 2, 'div': 3, 'n': 3}, {'dim': 3, 'div': 3, 'n': 0}],
     'thorough': [{'dim': d, 'div': v, 'n': n} for d in (2, 3) for v in (2, 3) for n in (0, 1, 2)]},
    {'name': 'facet_divide', 'fn': h_facet_divide, 'quick': [{'dim': 2, 'div': 3, 'n': 0}, {'dim': 2, 'div': 2, 'n': 2}, {'dim': 3, 'div': 2, 'n': 0}, {'dim': 3, 'div': 2, 'n': 1}, {'dim': 4, 'div': 2, 'n': 0}, {'dim': 2, 'div': 5, 'n': 0}, {'dim': 2, 'div': 5, 'n': 2}, {'dim': 3, 'div': 3, 'n': 0}, {'dim': 3, 'div': 3, 'n': 2}],
     'thorough': [{'dim': d, 'div': v, 'n': n} for d in (2, 3) for v in (2, 3) for n in (0, 1, 2)]},
    {'name': 'facet_meet', 'fn': h_facet_meet, 'quick': [{'dim': 2, 'div': 2, 'n1': 1, 'n2': 2}, {'dim': 3, 'div': 2, 'n1': 1, 'n2': 1}, {'dim': 2, 'div': 3, 'n1': 3, 'n2': 1}, {'dim': 2, 'div': 2, 'n1': 0, 'n2': 3}, {'dim': 3, 'div': 3, 'n1': 1, 'n2': 2}, {'dim': 4, 'div': 2, 'n1': 1, 'n2': 1}],
     'thorough': [{'dim': 2, 'div': v, 'n1': a, 'n2': b} for v in (2, 3) for a in (0, 1, 2) for b in (0, 1, 2)] + [{'dim': 3, 'div': 2, 'n1': 1, 'n2': b} for b in (0, 1, 2)]},
]
