"""C22: arithmetic helpers: distance ratios, exact sums of digit expansions, integer coordinates, multiples, faces, unordered products."""
import itertools
from symx.api import *

FUNCTIONS = ['peano.utils.ratio_linf/ratio_l1/ratio_l2/ratio_l2_squared', 'peano.utils.get_periodic_sum', 'peano.utils.get_int_cube_with_cache/get_int_time_with_cache', 'peano.utils.get_lcm', 'peano.utils.gen_faces', 'peano.utils.combinations_product']
BOUNDS = ('ratios: dim 1..4, displacement coordinates symbolic integers -8..8 or rationals with denominator up to 6, time symbolic 1..9 or rational; expansions: up to 4+4 digits, base 2..27; nested cubes: depth 0..4, dim 1..4, div 2..5; '
          'multiples: up to 3 numbers 1..12; faces: dim 1..5; products: up to 5 positions over up to 3 groups of up to 3 items')
OUTSIDE = 'floating point arguments; longer inputs'
ASSUMPTIONS = []


def h_ratio(ctx, dim, rational=False):
    from peano import utils as U
    if rational:
        dv = [ctx.frac('x%d' % j, Fraction(-3), Fraction(3), D=rational) for j in range(dim)]
        dt = ctx.frac('t', Fraction(1, rational), Fraction(2), D=rational)
    else:
        dv = [ctx.int('x%d' % j, -8, 8) for j in range(dim)]
        dt = ctx.int('t', 1, 9)
    ab = [ITE(x < 0, -x, x) for x in dv]
    big = MAX(ab)
    s1, s2 = sum(ab[1:], ab[0]), sum([x * x for x in dv[1:]], dv[0] * dv[0])

    def power(x, n):
        r = 1
        for _ in range(n):
            r = x * r
        return r
    args = tuple(dv)
    ctx.check(U.ratio_linf(dim, args, dt) * dt == power(big, dim), 'max-norm ratio')
    ctx.check(U.ratio_l1(dim, args, dt) * dt == power(s1, dim), 'sum-norm ratio')
    ctx.check(U.ratio_l2_squared(dim, args, dt) * dt * dt == power(s2, dim), 'squared euclidean ratio')
    if dim % 2 == 0:
        ctx.check(U.ratio_l2(dim, args, dt) * dt == power(s2, dim // 2), 'euclidean ratio')


def h_periodic(ctx, base, ns, np):
    from peano.utils import get_periodic_sum
    s = [ctx.int('s%d' % i, 0, base - 1) for i in range(ns)]
    p = [ctx.int('p%d' % i, 0, base - 1) for i in range(np)]
    x = get_periodic_sum(tuple(s), tuple(p), base)
    if ns:
        y = get_periodic_sum(tuple(s[1:]), tuple(p), base)
        ctx.check(x * base == y + s[0], 'removing the first digit multiplies by the base')
    else:
        # 0.(p) * base^m = p + 0.(p)
        y = 0
        for d in p:
            y = y * base + d
        ctx.check(x * (base**np - 1) == y, 'a purely periodic expansion repeats itself')
        ctx.check(x == get_periodic_sum(tuple(p), tuple(p), base), 'a period may be moved out')
    ctx.check(AND([x >= 0, x <= 1]), 'a digit expansion lies in the unit segment')


def h_int(ctx, dim, div, depth):
    from peano.utils import get_int_cube_with_cache, get_int_time_with_cache
    cubes = tuple(tuple(ctx.int('c%d_%d' % (i, j), 0, div - 1) for j in range(dim)) for i in range(depth))
    cn = tuple(ctx.int('n%d' % i, 0, div**dim - 1) for i in range(depth))
    x = get_int_cube_with_cache(dim, div, cubes)
    t = get_int_time_with_cache(dim, div, cn)
    y, u = [0] * dim, 0
    for c, n in zip(cubes, cn):
        y = [a * div + b for a, b in zip(y, c)]
        u = u * div**dim + n
    ctx.check(EQ(tuple(x), tuple(y)), 'integer cube of nested cubes')
    ctx.check(t == u, 'integer time of nested cubes')
    # answers do not depend on earlier questions
    y, u = [0] * dim, 0
    for c, n in zip(cubes, cn):
        y = [a * (div + 1) + b for a, b in zip(y, c)]
        u = u * (div + 1)**dim + n
    ctx.check(EQ(tuple(get_int_cube_with_cache(dim, div + 1, cubes)), tuple(y)), 'integer cube, other division')
    ctx.check(get_int_time_with_cache(dim, div + 1, cn) == u, 'integer time, other division')
    if depth:
        ctx.check(EQ(tuple(get_int_cube_with_cache(dim, div, cubes[1:])), tuple(a % div**(depth - 1) for a in x)), 'integer cube, inner cubes')
        ctx.check(get_int_time_with_cache(dim, div, cn[:-1]) == t // div**dim, 'integer time, outer cubes')


def h_lcm(ctx, n, top):
    from peano.utils import get_lcm
    xs = [ctx.choose('x%d' % i, list(range(1, top + 1))) for i in range(n)]
    r = get_lcm(xs)
    m = ctx.int('m', 1, top**n)
    ctx.check(r >= 1 and all(r % x == 0 for x in xs), 'a common multiple')
    q = [ctx.int('q%d' % i, 1, top**n) for i in range(n)]
    ctx.check(NOT(AND([m < r] + [m == a * x for a, x in zip(q, xs)])), 'no smaller common multiple')


def h_faces(ctx, dim, fd):
    from peano.utils import gen_faces
    faces = [tuple(f) for f in gen_faces(dim, fd)]
    v = [ctx.int('v%d' % j, 0, 2) for j in range(dim)]       # 2: free coordinate
    free = sum([ITE(x == 2, 1, 0) for x in v[1:]], ITE(v[0] == 2, 1, 0))
    hits = [AND([x == (2 if c is None else c) for x, c in zip(v, f)]) for f in faces]
    cnt = sum([ITE(h, 1, 0) for h in hits], 0)
    ctx.check(all(len(f) == dim for f in faces), 'one entry per coordinate')
    ctx.check(IFF(cnt == 1, free == fd), 'every face of the dimension once')
    ctx.check(OR([cnt == 0, cnt == 1]), 'no other face, none repeated')


def h_product(ctx, n, groups, size):
    from peano.utils import combinations_product
    ids = [ctx.choose('g%d' % i, list(range(groups))) for i in range(n)]
    sizes = {g: ctx.choose('size%d' % g, list(range(0, size + 1))) for g in sorted(set(ids))}
    gen = ctx.choose('gen', [False, True])
    items = {g: ['%d.%d' % (g, i) for i in range(sizes[g])] for g in sizes}
    out = [tuple(o) for o in combinations_product(ids, {g: (x for x in items[g]) if gen else items[g] for g in items})]
    ctx.check(all(len(o) == n and all(x in items[g] for x, g in zip(o, ids)) for o in out), 'elements come from their groups')
    if any(not sizes[g] for g in sizes):
        ctx.check(not out, 'nothing to choose from')
        return
    e = [ctx.int('e%d' % i, 0, sizes[g] - 1) for i, g in enumerate(ids)]
    same = []
    for o in out:
        cond = []
        for g in sizes:
            for v in range(sizes[g]):
                have = sum(1 for x, h in zip(o, ids) if h == g and x == items[g][v])
                want = sum([ITE(x == v, 1, 0) for x, h in zip(e, ids) if h == g], 0)
                cond.append(want == have)
        same.append(ITE(AND(cond), 1, 0))
    ctx.check(sum(same, 0) == 1, 'every choice of multisets exactly once')


HARNESSES = [
    {'name': 'ratio', 'fn': h_ratio, 'quick': [dict(dim=d) for d in (1, 2, 3, 4)] + [dict(dim=2, rational=6), dict(dim=1, rational=4), dict(dim=3, rational=4)], 'thorough': [dict(dim=5), dict(dim=6), dict(dim=4, rational=6)]},
    {'name': 'periodic', 'fn': h_periodic, 'quick': [dict(base=b, ns=s, np=p) for b in (2, 4, 9, 27, 81) for s in (0, 1, 2, 3, 4) for p in (1, 2, 3, 4)], 'thorough': [dict(base=b, ns=s, np=p) for b in (2, 8, 16, 25, 32, 81, 243) for s in range(0, 9) for p in range(1, 9)]},
    {'name': 'int', 'fn': h_int, 'opaque_hash': True, 'quick': [dict(dim=d, div=v, depth=n) for d, v, n in ((1, 2, 3), (2, 2, 1), (2, 3, 2), (2, 2, 4), (3, 2, 3), (3, 5, 2), (4, 2, 2), (2, 3, 0), (2, 7, 6), (3, 3, 6), (5, 2, 4))], 'thorough': [dict(dim=d, div=v, depth=n) for d in (1, 2, 3, 4) for v in (2, 3, 5, 10) for n in (1, 4, 8, 12)]},
    {'name': 'lcm', 'fn': h_lcm, 'quick': [dict(n=1, top=12), dict(n=2, top=12), dict(n=3, top=6)], 'thorough': [dict(n=2, top=40), dict(n=3, top=12)]},
    {'name': 'faces', 'fn': h_faces, 'quick': [dict(dim=d, fd=f) for d in (1, 2, 3, 4, 5) for f in range(d + 1)], 'thorough': [dict(dim=6, fd=f) for f in range(7)]},
    {'name': 'product', 'fn': h_product, 'quick': [dict(n=n, groups=g, size=s) for n, g, s in ((1, 1, 3), (2, 2, 3), (3, 2, 2), (3, 3, 2), (4, 2, 2), (5, 2, 2), (4, 3, 2))], 'thorough': [dict(n=4, groups=2, size=4), dict(n=6, groups=2, size=2), dict(n=5, groups=3, size=2)]},
]
