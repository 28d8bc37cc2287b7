"""C01: base maps (and specs) form a group acting consistently on everything they act on."""
import itertools
from symx.api import *

FUNCTIONS = ['peano.base_maps.BaseMap.__new__/id_map/cube_map/__eq__/__hash__/__mul__/get_inverse/__pow__/__invert__/'
             'conjugate_by/apply_x/apply_t/apply_vec/apply_cube/apply_cube_start/apply_cnum/gen_base_maps',
             'peano.base_maps.Spec.__new__/__mul__/__rmul__/__invert__/conjugate_by/__eq__/__hash__']
BOUNDS = ('all pairs of base maps of dim 1..3 (single maps also dim 4; tables of varied maps in dim 4..8), every point/vector (unbounded rationals), every side mx, mt, '
          'every div, cube length and genus (unbounded integers); powers -9..9 (dim 1: -130..130; varied maps of dim 5..7: -130..130), thorough -40..40; pnums 0..9')
OUTSIDE = 'dimensions above 8; maps outside the tables in dimensions above 4; powers of larger magnitude'
ASSUMPTIONS = ['quicktions.Fraction is exact rational arithmetic (replaced by the proxy class)']


def vec(ctx, name, dim):
    return tuple(ctx.frac('%s%d' % (name, j)) for j in range(dim))


def ivec(ctx, name, dim):
    return tuple(ctx.int('%s%d' % (name, j)) for j in range(dim))


def ref_x(data, x, mx):
    coords, _ = data
    return tuple(mx - x[k] if b else x[k] for k, b in coords)


def some(ctx, name, dim, few):
    from harness.common import some_maps
    return some_maps(ctx, name, dim, few)


def h_action(ctx, dim, few=None):
    """One map: what it does to points, vectors, cubes, times; inverse, time reversal, powers."""
    from peano.base_maps import BaseMap
    data = some(ctx, 'a', dim, few)
    a = BaseMap(*data)
    x, mx, t, mt = vec(ctx, 'x', dim), ctx.frac('mx'), ctx.frac('t'), ctx.frac('mt')
    v = vec(ctx, 'v', dim)
    c, div, G, n = ivec(ctx, 'c', dim), ctx.int('div'), ctx.int('G'), ctx.int('n')
    cs, L = ivec(ctx, 's', dim), ctx.int('L')
    ctx.check(a.dim == dim and tuple(tuple(p) for p in a.coords) == data[0] and a.time_rev == data[1], 'attributes')
    ctx.check(EQ(a.apply_x(x, mx), ref_x(data, x, mx)), 'apply_x is the isometry of [0,mx]^d given by coords')
    ctx.check(EQ(a.apply_x(x), ref_x(data, x, 1)), 'apply_x default side 1')
    ctx.check(EQ(a.apply_t(t, mt), mt - t if data[1] else t), 'apply_t')
    ctx.check(EQ(a.apply_t(t), 1 - t if data[1] else t), 'apply_t default')
    ctx.check(EQ(a.apply_vec(v), tuple(-v[k] if b else v[k] for k, b in data[0])), 'apply_vec')
    # linear part: a(x+v) - a(x) = a.vec(v)
    xv = tuple(p + q for p, q in zip(x, v))
    ctx.check(EQ(tuple(p - q for p, q in zip(a.apply_x(xv, mx), a.apply_x(x, mx))), a.apply_vec(v)), 'linear part')
    # cube c of [0,div]^d is the image of the unit cube at c: min corner of image
    lo, hi = a.apply_x(c, div), a.apply_x(tuple(q + 1 for q in c), div)
    ctx.check(EQ(a.apply_cube(div, c), tuple(MIN([p, q]) for p, q in zip(lo, hi))), 'apply_cube is image of the sub-cube')
    ctx.assume(L >= 0)
    lo, hi = a.apply_x(cs, 1), a.apply_x(tuple(q + L for q in cs), 1)
    ctx.check(EQ(a.apply_cube_start(cs, L), tuple(MIN([p, q]) for p, q in zip(lo, hi))), 'apply_cube_start is image of the cube')
    ctx.check(EQ(a.apply_cnum(G, n), MIN([a.apply_t(n, G), a.apply_t(n + 1, G)])), 'apply_cnum is image of the time interval')
    # inverse
    ident = BaseMap.id_map(dim)
    for inv in (a.get_inverse(), a ** (-1)):
        ctx.check(EQ(inv.apply_x(a.apply_x(x, mx), mx), x), 'inverse on points')
        ctx.check(EQ(a.apply_x(inv.apply_x(x, mx), mx), x), 'inverse on points (right)')
        ctx.check(EQ(inv.apply_t(a.apply_t(t, mt), mt), t), 'inverse on time')
        ctx.check(inv * a == ident and a * inv == ident, 'group inverse')
    ctx.check(EQ(ident.apply_x(x, mx), x) and EQ(ident.apply_t(t), t), 'identity')
    ctx.check(ident * a == a and a * ident == a, 'neutral element')
    # time reversal and cube map
    r, q = ~a, a.cube_map()
    ctx.check(EQ(r.apply_x(x, mx), a.apply_x(x, mx)), '~ keeps the isometry')
    ctx.check(EQ(r.apply_t(t, mt), mt - a.apply_t(t, mt)), '~ reverses time')
    ctx.check((~r) == a, '~~a = a')
    ctx.check(EQ(q.apply_x(x, mx), a.apply_x(x, mx)), 'cube_map keeps the isometry')
    ctx.check(EQ(q.apply_t(t, mt), t), 'cube_map drops time reversal')


def h_pow(ctx, dim, top):
    """a**n is the n-fold composition for every integer n in the bound."""
    from peano.base_maps import BaseMap
    a = ctx.base_map('a', dim)
    x, t = vec(ctx, 'x', dim), ctx.frac('t')
    n = ctx.int('n', -top, top)
    p = a ** n
    n = n.__index__()
    step = a if n >= 0 else a.get_inverse()
    y, s = x, t
    for _ in range(abs(n)):
        y, s = step.apply_x(y), step.apply_t(s)
    ctx.check(EQ(p.apply_x(x), y), 'power acts on points as iterated map')
    ctx.check(EQ(p.apply_t(t), s), 'power acts on time as iterated map')


def h_powbig(ctx, dim):
    """Large powers of isometries of large order."""
    from peano.base_maps import BaseMap
    cyc = lambda a, b: [b - 1] + list(range(a, b - 1)) if b > a else []
    perms = [cyc(0, dim), cyc(0, 2) + cyc(2, dim), cyc(0, 3) + cyc(3, dim)]
    perm = ctx.choose('perm', [tuple(q) for q in perms])
    flips = ctx.choose('flips', [0, 1, 1 << (dim - 1), (1 << dim) - 1, 5])
    a = BaseMap([(k, bool(flips >> j & 1)) for j, k in enumerate(perm)], ctx.choose('tr', [False, True]))
    x, t = vec(ctx, 'x', dim), ctx.frac('t')
    y, s = x, t
    z, r = x, t
    inv = a.get_inverse()
    for n in range(1, 131):
        y, s = a.apply_x(y), a.apply_t(s)
        z, r = inv.apply_x(z), inv.apply_t(r)
        if n < 70 or n % 10 == 0:
            p, q = a ** n, a ** (-n)
            ctx.check(AND([EQ(p.apply_x(x), y), EQ(p.apply_t(t), s)]), 'power')
            ctx.check(AND([EQ(q.apply_x(x), z), EQ(q.apply_t(t), r)]), 'negative power')


def h_compose(ctx, dim, few=None):
    from peano.base_maps import BaseMap
    da, db = some(ctx, 'a', dim, few), some(ctx, 'b', dim, few)
    a, b = BaseMap(*da), BaseMap(*db)
    x, mx, t, mt = vec(ctx, 'x', dim), ctx.frac('mx'), ctx.frac('t'), ctx.frac('mt')
    c, div = ivec(ctx, 'c', dim), ctx.int('div')
    ab = a * b
    ctx.check(EQ(ab.apply_x(x, mx), ref_x(da, ref_x(db, x, mx), mx)), '(a*b) x = a (b x)')
    ctx.check(EQ(ab.apply_t(t, mt), a.apply_t(b.apply_t(t, mt), mt)), '(a*b) t = a (b t)')
    ctx.check(EQ(ab.apply_cube(div, c), a.apply_cube(div, b.apply_cube(div, c))), '(a*b) cube')
    # again, now from caches
    ctx.check((a * b) == ab and EQ((a * b).apply_x(x, mx), ab.apply_x(x, mx)), 'product does not depend on history')
    ctx.check((a == b) == (da == db), 'equality is equality of maps')
    if da == db:
        ctx.check(hash(a) == hash(b), 'equal maps hash equally')
    conj = a.conjugate_by(b)
    binv = b.get_inverse()
    ctx.check(EQ(conj.apply_x(x, mx), b.apply_x(a.apply_x(binv.apply_x(x, mx), mx), mx)), 'conjugation on points')
    ctx.check(EQ(conj.apply_t(t), a.apply_t(t)), 'conjugation on time')
    ctx.check(ab.get_inverse() == binv * a.get_inverse(), 'inverse of product')
    ctx.check((~a) * b == ~(a * b) and a * ~b == ~(a * b), 'time reversal is central')


def h_assoc(ctx, dim, few=None):
    from peano.base_maps import BaseMap
    a, b, c = (BaseMap(*some(ctx, n, dim, few)) for n in 'abc')
    ctx.check((a * b) * c == a * (b * c), 'associativity')


def h_spec(ctx, dim, np=9, few=None):
    """Specs: (S1*S2) acts as S1(S2 .): maps compose, the outer pattern number wins."""
    from peano.base_maps import BaseMap, Spec
    a, b = BaseMap(*some(ctx, 'a', dim, few)), BaseMap(*some(ctx, 'b', dim, few))
    p, q = ctx.int('p', 0, np), ctx.int('q', 0, np)
    x, t = vec(ctx, 'x', dim), ctx.frac('t')
    s1, s2 = Spec(a, p), Spec(b, q)

    def same(s, bm, pn, what):
        ctx.check(EQ(s.base_map.apply_x(x), bm.apply_x(x)), what + ': map')
        ctx.check(EQ(s.base_map.apply_t(t), bm.apply_t(t)), what + ': time')
        ctx.check(EQ(s.pnum, pn), what + ': pnum')
    same(s1 * s2, a * b, p, 'spec*spec')
    same(s1 * b, a * b, p, 'spec*map')
    same(a * s2, a * b, q, 'map*spec')
    same(~s1, ~a, p, '~spec')
    same(s1.conjugate_by(b), b * a * b.get_inverse(), p, 'conjugate')
    same(Spec(a), a, 0, 'default pattern')
    eq = s1 == s2
    ctx.check(IFF(eq, AND([a == b, EQ(p, q)])), 'spec equality')
    if eq:
        ctx.check(hash(s1) == hash(s2), 'spec hash')


def h_gen(ctx, dim):
    """gen_base_maps yields exactly the whole group, each map once; restricted by time_rev when asked."""
    from peano.base_maps import BaseMap
    data = ctx.base_map_data('a', dim)
    want = ctx.choose('want', [None, False, True])
    got = list(BaseMap.gen_base_maps(dim)) if want is None else list(BaseMap.gen_base_maps(dim, time_rev=want))
    x, t = vec(ctx, 'x', dim), ctx.frac('t')
    n = sum(1 for b in got if (tuple(tuple(p) for p in b.coords), b.time_rev) == data)
    ctx.check(n == (1 if want in (None, data[1]) else 0), 'each map exactly once')
    import math
    ctx.check(len(got) == math.factorial(dim) * 2**dim * (2 if want is None else 1), 'nothing else')
    a = BaseMap(*data)
    ctx.check(EQ(a.apply_x(x), ref_x(data, x, 1)), 'map object acts by its data after the group was generated')


HARNESSES = [
    {'name': 'action', 'fn': h_action, 'quick': [{'dim': d} for d in (1, 2, 3, 4)] + [{'dim': d, 'few': 200} for d in (5, 6, 8)], 'thorough': []},
    {'name': 'pow', 'fn': h_pow, 'quick': [{'dim': d, 'top': 9} for d in (2, 3)] + [{'dim': 1, 'top': 130}],
     'thorough': [{'dim': d, 'top': 40} for d in (1, 2, 3)] + [{'dim': 4, 'top': 25}]},
    {'name': 'powbig', 'fn': h_powbig, 'quick': [{'dim': 5}, {'dim': 6}, {'dim': 7}]},
    {'name': 'compose', 'fn': h_compose, 'quick': [{'dim': 1}, {'dim': 2}, {'dim': 3, '_w': 9}] + [{'dim': d, 'few': 25} for d in (4, 5, 6, 7)], 'thorough': [{'dim': 4, 'few': 200}]},
    {'name': 'assoc', 'fn': h_assoc, 'quick': [{'dim': 1}, {'dim': 2}] + [{'dim': d, 'few': 9} for d in (3, 4, 6)], 'thorough': [{'dim': 3}]},
    {'name': 'spec', 'fn': h_spec, 'quick': [{'dim': 1, 'np': 9}, {'dim': 2, 'np': 1}] + [{'dim': d, 'np': 3 if d < 4 else 12 - 5 * (d > 4), 'few': 6 if d < 4 else 2} for d in (2, 3, 4, 6)], 'thorough': [{'dim': 2, 'np': 9}, {'dim': 3, 'np': 1}]},
    {'name': 'gen', 'fn': h_gen, 'quick': [{'dim': d} for d in (1, 2, 3)], 'thorough': [{'dim': 4}]},
]
