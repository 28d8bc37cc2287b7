"""C04: standard forms are the true minimum over all symmetries, hence equal for symmetric objects."""
from symx.api import *
from harness.common import *

FUNCTIONS = ['peano.subsets.Point.std/argstd', 'peano.subsets.Subset.std', 'peano.subsets.Link.std/__lt__/__eq__/__hash__/__rmul__/__invert__',
             'peano.subsets.FacetDivSubset.__lt__/__eq__/__hash__', 'peano.base_maps.BaseMap.gen_constraint_fast']
BOUNDS = 'points of dim 1..3 (4: grid k/2; 4..5: table of points), links of points of dim 1..2 (any rationals; dim 2 links in [0,1]^2), thorough: links dim 3 on the grid k/2; links dim 3..4: table of points; facet subsets dim 2..4 div 2..5 nesting <= 3; facet links dim 2..3'
OUTSIDE = 'larger dimensions'
ASSUMPTIONS = ['quicktions.Fraction is exact rational arithmetic']


def pt(ctx, name, dim, D=None, unit=False):
    from peano.subsets import Point
    if D == 'few':
        return Point(few_points(ctx, name, dim, 8))
    return Point(ctx.frac('%s%d' % (name, j), *((0, 1) if unit else (None, None)), D=D) for j in range(dim))


def h_point(ctx, dim, D=None):
    p = pt(ctx, 'p', dim, D, D is not None)
    s = p.std()
    orbit = [ref_x(k, tuple(p)) for k in all_maps(dim, False)]
    ctx.check(OR([EQ(tuple(s), o) for o in orbit]), 'std is in the orbit')
    ctx.check(AND([NOT(LEXLT(o, tuple(s))) for o in orbit]), 'std is the least of the orbit')


def h_point_inv(ctx, dim, D=None, few=None):
    """Symmetric points get the same standard form; the form is idempotent."""
    from peano.base_maps import BaseMap
    p = pt(ctx, 'p', dim, D, D is not None)
    a = ctx.base_map('a', dim, time_rev=False) if few is None else BaseMap(*cube_part(some_maps(ctx, 'a', dim, few)))
    s = p.std()
    ctx.check(EQ(tuple((a * p).std()), tuple(s)), 'std is invariant under symmetries')
    ctx.check(EQ(tuple(s.std()), tuple(s)), 'std is idempotent')


def link_orbit(link, dim):
    e, x = tuple(link.entrance), tuple(link.exit)
    out = []
    for k in all_maps(dim):
        ie, ix = ref_x(k, e), ref_x(k, x)
        out.append((ix, ie) if k[1] else (ie, ix))
    return out


def h_link(ctx, dim, D=None):
    from peano.subsets import Link
    l = Link(pt(ctx, 'e', dim, D, True), pt(ctx, 'x', dim, D, True))
    s = l.std()
    orbit = link_orbit(l, dim)
    S_ = (tuple(s.entrance), tuple(s.exit))
    ctx.check(OR([EQ(S_, o) for o in orbit]), 'link std is in the orbit')
    ctx.check(AND([NOT(LEXLT(o, S_)) for o in orbit]), 'link std is the least of the orbit')


def h_link_action(ctx, dim, few=None):
    """A map acts on a link by moving both ends and swapping them when time is reversed; order and equality are those of the pairs."""
    from peano.subsets import Link
    l, m = Link(pt(ctx, 'e', dim), pt(ctx, 'x', dim)), Link(pt(ctx, 'f', dim), pt(ctx, 'y', dim))
    from peano.base_maps import BaseMap
    a = BaseMap(*some_maps(ctx, 'a', dim, few))
    k = bmkey(a)
    r = a * l
    ie, ix = ref_x(k, tuple(l.entrance)), ref_x(k, tuple(l.exit))
    if k[1]:
        ie, ix = ix, ie
    ctx.check(EQ(tuple(r.entrance), ie) and True, 'link action: entrance')
    ctx.check(EQ((tuple(r.entrance), tuple(r.exit)), (ie, ix)), 'link action')
    i = ~l
    ctx.check(EQ((tuple(i.entrance), tuple(i.exit)), (tuple(l.exit), tuple(l.entrance))), '~link')
    A, B = (tuple(l.entrance), tuple(l.exit)), (tuple(m.entrance), tuple(m.exit))
    lt, eq = l < m, l == m
    ctx.check(IFF(lt, LEXLT(A, B)), 'link order')
    ctx.check(IFF(eq, EQ(A, B)), 'link equality')
    ctx.check(IFF(l.intersects(m), EQ(A, B)), 'point links intersect iff equal')
    if eq:
        ctx.check(hash(l) == hash(m), 'link hash')


def fkey(s):
    return (s.facet, s.cubes)


def h_facet(ctx, dim, div, n):
    s = facet(ctx, 's', dim, div, n)
    t = s.std()
    orbit = [ref_facet(k, s, div) for k in all_maps(dim, False)]
    ctx.check(OR([AND([o[0] == t.facet, EQ(o[1], t.cubes)]) for o in orbit]), 'facet std is in the orbit')
    ctx.check(AND([NOT(LEXLT(list(flat(o)), list(flat(fkey(t))))) for o in orbit]), 'facet std is the least of the orbit')


def h_facet_link(ctx, dim, div, n1, n2):
    from peano.subsets import Link
    l = Link(facet(ctx, 's', dim, div, n1), facet(ctx, 't', dim, div, n2))
    r = l.std()
    orbit = []
    for k in all_maps(dim):
        p, q = ref_facet(k, l.entrance, div), ref_facet(k, l.exit, div)
        orbit.append((q, p) if k[1] else (p, q))
    R = (fkey(r.entrance), fkey(r.exit))
    ctx.check(OR([EQ(o, R) for o in orbit]), 'facet link std is in the orbit')
    if n1 == n2:
        ctx.check(AND([NOT(LEXLT(o, R)) for o in orbit]), 'facet link std is the least of the orbit')
    a = ctx.base_map('a', dim)
    ctx.check((a * l).std() == r, 'facet link std is invariant')


def h_facet_order(ctx, dim, div, n1, n2):
    """< is a strict total order that agrees with ==; equal subsets have equal hashes."""
    s, t = facet(ctx, 's', dim, div, n1), facet(ctx, 't', dim, div, n2)
    eq = s == t
    same = AND([s.facet == t.facet, n1 == n2] + [EQ(a, b) for a, b in zip(s.cubes, t.cubes)])
    ctx.check(IFF(eq, same), 'equal iff the same set')
    ctx.check(IFF(t == s, same), 'equality is symmetric')
    if eq:
        ctx.check(hash(s) == hash(t), 'hash of equal subsets')
    lt, gt = s < t, t < s
    ctx.check(NOT(AND([lt, gt])), 'order is antisymmetric')
    ctx.check(OR([lt, gt, same]), 'order is total')
    ctx.check(NOT(AND([same, OR([lt, gt])])), 'order is strict')


HARNESSES = [
    {'name': 'facet_order', 'fn': h_facet_order, 'quick': [{'dim': 2, 'div': 2, 'n1': 1, 'n2': 1}, {'dim': 2, 'div': 3, 'n1': 2, 'n2': 2}, {'dim': 3, 'div': 2, 'n1': 1, 'n2': 1}, {'dim': 2, 'div': 2, 'n1': 1, 'n2': 2}, {'dim': 3, 'div': 3, 'n1': 2, 'n2': 2}, {'dim': 4, 'div': 2, 'n1': 1, 'n2': 1}]},
    {'name': 'point', 'fn': h_point, 'quick': [{'dim': 1}, {'dim': 2}, {'dim': 3}, {'dim': 4, 'D': 2}, {'dim': 4, 'D': 'few'}, {'dim': 5, 'D': 'few'}], 'thorough': [{'dim': 4}]},
    {'name': 'point_inv', 'fn': h_point_inv, 'quick': [{'dim': 1}, {'dim': 2}, {'dim': 3, 'few': 6}, {'dim': 4, 'D': 'few', 'few': 6}], 'thorough': [{'dim': 3}]},
    {'name': 'link', 'fn': h_link, 'quick': [{'dim': 1}, {'dim': 2, '_w': 9}, {'dim': 3, 'D': 1}, {'dim': 2, 'D': 6}, {'dim': 3, 'D': 'few'}, {'dim': 4, 'D': 'few'}], 'thorough': [{'dim': 3, 'D': 2}]},
    {'name': 'link_action', 'fn': h_link_action, 'quick': [{'dim': 1}, {'dim': 2}, {'dim': 3, 'few': 8}, {'dim': 4, 'few': 4}]},
    {'name': 'facet', 'fn': h_facet, 'quick': [{'dim': 2, 'div': 2, 'n': 1}, {'dim': 2, 'div': 3, 'n': 1}, {'dim': 3, 'div': 2, 'n': 1}, {'dim': 2, 'div': 2, 'n': 3}, {'dim': 2, 'div': 5, 'n': 1}, {'dim': 2, 'div': 3, 'n': 2}, {'dim': 3, 'div': 2, 'n': 2}, {'dim': 3, 'div': 3, 'n': 1}, {'dim': 4, 'div': 2, 'n': 1}],
     'thorough': [{'dim': 2, 'div': v, 'n': n} for v in (2, 3) for n in (0, 1, 2)] + [{'dim': 3, 'div': 2, 'n': n} for n in (0, 1, 2)]},
    {'name': 'facet_link', 'fn': h_facet_link, 'quick': [{'dim': 2, 'div': 2, 'n1': 0, 'n2': 1}, {'dim': 2, 'div': 2, 'n1': 1, 'n2': 1}, {'dim': 2, 'div': 3, 'n1': 1, 'n2': 1}, {'dim': 3, 'div': 2, 'n1': 0, 'n2': 0}],
     'thorough': [{'dim': 2, 'div': 2, 'n1': a, 'n2': b} for a in (0, 1) for b in (0, 1)]},
]
