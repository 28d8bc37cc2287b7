"""C03: maps-between-objects queries are exact: gen_constraint_fast, argstd, argmul_intersect."""
from symx.api import *
from harness.common import *

FUNCTIONS = ['peano.base_maps.BaseMap.gen_constraint_fast', 'peano.subsets.Point.argstd/intersects/__rmul__',
             'peano.subsets.Subset.argmul_intersect', 'peano.subsets.FacetDivSubset.argmul_intersect/_map_facet/__rmul__/intersects',
             'peano.subsets.Link.argmul_intersect/intersects/__rmul__']
BOUNDS = 'points: every pair of rational points of dim 1..3 (unbounded rationals); links of points: dim 1..2; facet subsets: dim 2..4, div 2..5, nesting <= 3, every address; facet links dim 2..3; links dim 3..4 and points dim 4..5: a table of points and images of them, possibly with one coordinate changed'
OUTSIDE = 'arbitrary pairs of points in dimension 4 and more; deeper facet nesting'
ASSUMPTIONS = ['quicktions.Fraction is exact rational arithmetic']


def _exact(ctx, got, all_maps, pred, what):
    """got lists exactly the maps satisfying pred, each once."""
    keys = [bmkey(b) for b in got]
    ctx.check(len(set(keys)) == len(keys), what + ': no map twice')
    known = set(bmkey(b) for b in all_maps)
    ctx.check(all(k in known for k in keys), what + ': only maps of the requested kind')
    ctx.check(AND([IFF(bmkey(b) in keys, pred(bmkey(b))) for b in all_maps]), what + ': exactly the maps satisfying the condition')


def h_fast(ctx, dim):
    from peano.base_maps import BaseMap
    src = tuple(ctx.frac('s%d' % j) for j in range(dim))
    dst = tuple(ctx.frac('d%d' % j) for j in range(dim))
    got = list(BaseMap.gen_constraint_fast(src, dst))
    _exact(ctx, got, all_maps(dim, False), lambda k: EQ(ref_x(k, src), dst), 'maps src->dst')


def h_argstd(ctx, dim):
    from peano.subsets import Point
    p = Point(ctx.frac('s%d' % j) for j in range(dim))
    got = list(p.argstd())
    m = ref_std(tuple(p))
    _exact(ctx, got, all_maps(dim, False), lambda k: EQ(ref_x(k, tuple(p)), m), 'argstd')


def h_point_argmul(ctx, dim):
    from peano.subsets import Point
    from peano.base_maps import BaseMap
    p = Point(ctx.frac('s%d' % j) for j in range(dim))
    q = Point(ctx.frac('d%d' % j) for j in range(dim))
    _exact(ctx, list(p.argmul_intersect(q)), all_maps(dim, False), lambda k: EQ(ref_x(k, tuple(p)), tuple(q)), 'argmul_intersect')
    sub = all_maps(dim)[::3]
    got = list(p.argmul_intersect(q, bms=iter([BaseMap(*k) for k in map(bmkey, sub)])))
    _exact(ctx, got, sub, lambda k: EQ(ref_x(k, tuple(p)), tuple(q)), 'argmul_intersect within given maps')


def h_link_argmul(ctx, dim):
    from peano.subsets import Point, Link
    pts = [Point(ctx.frac('p%d%d' % (i, j)) for j in range(dim)) for i in range(4)]
    a, b = Link(pts[0], pts[1]), Link(pts[2], pts[3])
    e, x, f, y = map(tuple, pts)

    def pred(k):
        ie, ix = ref_x(k, e), ref_x(k, x)
        if k[1]:
            ie, ix = ix, ie
        return AND([EQ(ie, f), EQ(ix, y)])
    _exact(ctx, list(a.argmul_intersect(b)), all_maps(dim), pred, 'link argmul_intersect')


def h_facet_argmul(ctx, dim, div, n1, n2):
    a, b = facet(ctx, 'a', dim, div, n1), facet(ctx, 'b', dim, div, n2)

    def pred(k):
        fc, cubes = ref_facet(k, a, div)
        return AND([fc == b.facet] + [EQ(c1, c2) for c1, c2 in zip(cubes, b.cubes)])
    got = list(a.argmul_intersect(b))
    _exact(ctx, got, all_maps(dim, False), pred, 'facet argmul_intersect')
    sub = all_maps(dim, False)[::2]
    from peano.base_maps import BaseMap
    got = list(a.argmul_intersect(b, bms=[BaseMap(*bmkey(k)) for k in sub]))
    _exact(ctx, got, sub, pred, 'facet argmul_intersect within given maps')


def h_facet_link(ctx, dim, div, n):
    from peano.subsets import Link
    s = [facet(ctx, nm, dim, div, n if i else 0) for i, nm in enumerate('abcd')]
    a, b = Link(s[0], s[1]), Link(s[2], s[3])

    def meets(k, u, v):
        fc, cubes = ref_facet(k, u, div)
        return AND([fc == v.facet] + [EQ(c1, c2) for c1, c2 in zip(cubes, v.cubes)])

    def pred(k):
        u, v = (s[1], s[0]) if k[1] else (s[0], s[1])
        return AND([meets(k, u, s[2]), meets(k, v, s[3])])
    _exact(ctx, list(a.argmul_intersect(b)), all_maps(dim), pred, 'facet link argmul_intersect')


def _image(ctx, pts, dim, few, D):
    """Image of the points under one of few maps, possibly with one coordinate changed (so that the answer may be empty)."""
    k = some_maps(ctx, 'k', dim, few)
    img = [ref_x(k, tuple(p)) for p in pts]
    if k[1]:
        img.reverse()
    off = ctx.choose('off', [None, 0, dim - 1])
    if off is not None:
        img[-1] = tuple(Fraction(1, 3) if j == off else v for j, v in enumerate(img[-1]))
    return img


def h_point_img(ctx, dim, D, few):
    from peano.subsets import Point
    from peano.base_maps import BaseMap
    if D is None:       # one of a table of points with various coincidences of coordinates
        p = Point(few_points(ctx, 'p', dim, 8))
    else:
        p = Point(ctx.frac('s%d' % j, 0, 1, D=D) for j in range(dim))
    q = Point(_image(ctx, [p], dim, few, D)[0])
    pred = lambda k: EQ(ref_x(k, tuple(p)), tuple(q))
    _exact(ctx, list(BaseMap.gen_constraint_fast(p, q)), all_maps(dim, False), pred, 'maps src->dst')
    _exact(ctx, list(p.argmul_intersect(q)), all_maps(dim, False), pred, 'argmul_intersect')
    m = tuple(p.std())
    _exact(ctx, list(p.argstd()), all_maps(dim, False), lambda k: EQ(ref_x(k, tuple(p)), m), 'argstd')


def h_link_img(ctx, dim, D, few):
    from peano.subsets import Point, Link
    if D is None:
        pts = [Point(few_points(ctx, 'p%d' % i, dim, 5)) for i in range(2)]
    else:
        pts = [Point(ctx.frac('p%d%d' % (i, j), 0, 1, D=D) for j in range(dim)) for i in range(2)]
    f, y = _image(ctx, pts, dim, few, D)
    a, b = Link(*pts), Link(Point(f), Point(y))
    e, x = map(tuple, pts)

    def pred(k):
        ie, ix = ref_x(k, e), ref_x(k, x)
        if k[1]:
            ie, ix = ix, ie
        return AND([EQ(ie, f), EQ(ix, y)])
    _exact(ctx, list(a.argmul_intersect(b)), all_maps(dim), pred, 'link argmul_intersect')


HARNESSES = [
    {'name': 'point_img', 'fn': h_point_img, 'quick': [{'dim': 3, 'D': 2, 'few': 3}, {'dim': 4, 'D': None, 'few': 3}, {'dim': 5, 'D': None, 'few': 1, '_w': 5}], 'thorough': [{'dim': 3, 'D': 4, 'few': 4}, {'dim': 4, 'D': 2, 'few': 1}, {'dim': 5, 'D': 1, 'few': 1}]},
    {'name': 'link_img', 'fn': h_link_img, 'quick': [{'dim': 2, 'D': 3, 'few': 4}, {'dim': 3, 'D': 1, 'few': 3}, {'dim': 3, 'D': None, 'few': 6}, {'dim': 4, 'D': None, 'few': 2}], 'thorough': [{'dim': 3, 'D': 2, 'few': 2}, {'dim': 4, 'D': 1, 'few': 1}]},
    {'name': 'fast', 'fn': h_fast, 'quick': [{'dim': 1}, {'dim': 2}, {'dim': 3, '_w': 9}]},
    {'name': 'argstd', 'fn': h_argstd, 'quick': [{'dim': 1}, {'dim': 2}, {'dim': 3}]},
    {'name': 'point_argmul', 'fn': h_point_argmul, 'quick': [{'dim': 1}, {'dim': 2}], 'thorough': [{'dim': 1}, {'dim': 2}]},
    {'name': 'link_argmul', 'fn': h_link_argmul, 'quick': [{'dim': 1}, {'dim': 2}]},
    {'name': 'facet_argmul', 'fn': h_facet_argmul, 'quick': [{'dim': 2, 'div': 2, 'n1': 1, 'n2': 2}, {'dim': 2, 'div': 3, 'n1': 1, 'n2': 1}, {'dim': 3, 'div': 2, 'n1': 1, 'n2': 1}, {'dim': 2, 'div': 5, 'n1': 1, 'n2': 1}, {'dim': 2, 'div': 2, 'n1': 3, 'n2': 3}, {'dim': 2, 'div': 3, 'n1': 2, 'n2': 0}, {'dim': 3, 'div': 2, 'n1': 0, 'n2': 1}, {'dim': 3, 'div': 3, 'n1': 1, 'n2': 1}, {'dim': 3, 'div': 2, 'n1': 2, 'n2': 2}, {'dim': 4, 'div': 2, 'n1': 0, 'n2': 0}, {'dim': 4, 'div': 2, 'n1': 1, 'n2': 0}],
     'thorough': [{'dim': 2, 'div': v, 'n1': a, 'n2': b} for v in (2, 3) for a in (0, 1, 2) for b in (0, 1, 2)] + [{'dim': 3, 'div': 2, 'n1': 1, 'n2': 0}, {'dim': 4, 'div': 2, 'n1': 1, 'n2': 1}]},
    {'name': 'facet_link', 'fn': h_facet_link, 'quick': [{'dim': 2, 'div': 2, 'n': 0}, {'dim': 2, 'div': 2, 'n': 1}, {'dim': 2, 'div': 3, 'n': 1}, {'dim': 3, 'div': 2, 'n': 0}]},
]
