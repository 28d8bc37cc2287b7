"""C07: deep orientations and subdivisions describe the same curve."""
from symx.api import *
from harness.common import *

FUNCTIONS = ['peano.curves.FuzzyCurve.get_deep_spec/_compose_specs', 'peano.curves.Curve.get_subdivision']
BOUNDS = ('curves with symbolic prototypes, dim 1..3, div 2..3, 1..3 patterns; an arbitrary spec at any position, every address of length 1..3; subdivisions k=1..2 '
          'compared through depth 2 of the subdivided curve; also addresses up to length 20, div up to 12, dim 4, up to 7 patterns with the varied table of orientations; subdivision of a subdivision')
OUTSIDE = 'deeper addresses; k >= 5'
ASSUMPTIONS = ['isometry reference semantics in harness/common.py']


def build(ctx, dim, div, mult, free):
    G = div**dim
    specs = table(dim, G, mult)
    cubes = [sym_cubes(ctx, 'c%d_' % p, dim, div) for p in range(mult)]
    if free:
        p, c = ctx.choose('pos', [(p, c) for p in range(mult) for c in range(G)][:free])
        specs[p][c] = any_spec(ctx, 's', dim, mult)
    return mk_curve(dim, div, cubes, specs, ctx.choose('pn0', list(range(mult))))


def h_deep(ctx, dim, div, mult, free, n, holes=None):
    curve = build(ctx, dim, div, mult, free)
    G = curve.genus
    plain = Plain.of(curve)
    pn = ctx.choose('pn', list(range(mult)))
    cnums = tuple(ctx.choose('n%d' % i, list(range(G))) if holes is None or i in holes else (i * i + i // 2 + 1) % G for i in range(n))
    # other queries first
    o = curve.get_deep_spec((pn + 1) % mult, cnums)
    _, want = plain.deep(ref_id(dim), (pn + 1) % mult, cnums)
    ctx.check((bmkey(o.base_map), o.pnum) == want, 'orientation in another pattern')
    o = curve.get_deep_spec(pn, cnums[::-1])
    _, want = plain.deep(ref_id(dim), pn, cnums[::-1])
    ctx.check((bmkey(o.base_map), o.pnum) == want, 'orientation at another address')
    s = curve.get_deep_spec(pn, cnums)
    _, want = plain.deep(ref_id(dim), pn, cnums)
    ctx.check((bmkey(s.base_map), s.pnum) == want, 'orientation of the addressed fraction')
    s2 = curve.get_deep_spec(pn, iter(cnums))
    ctx.check(s2 == s, 'same answer again')
    # the fraction really is s * curve: its next level, seen through the real action, is the next level of the curve
    got = Plain.of(s * curve).patterns[s.pnum]
    nxt = plain.level1(*want)
    ctx.check(EQ(tuple(c for c, _ in got), tuple(c for c, _ in nxt)), 'fraction equals spec * curve')


def h_compose(ctx, dim, div, mult, free):
    """_compose_specs(spec, cnum): X with X * f = fraction cnum of spec * f."""
    curve = build(ctx, dim, div, mult, free)
    k, pn = any_spec(ctx, 'k', dim, mult)
    c = ctx.choose('c', list(range(curve.genus)))
    s = curve._compose_specs(spec_of(k, pn), c)
    _, want = Plain.of(curve).deep(k, pn, (c,))
    ctx.check((bmkey(s.base_map), s.pnum) == want, 'composition of orientations')


def h_sub(ctx, dim, div, mult, free, k, deep):
    curve = build(ctx, dim, div, mult, free)
    zero = curve.get_subdivision(0)
    ctx.check(zero.genus == curve.genus and zero.div == div, 'no subdivision')
    sub = curve.get_subdivision(k) if k != 1 or ctx.choose('arg', [0, 1]) else curve.get_subdivision()
    plain, got = Plain.of(curve), Plain.of(sub)
    ctx.check(sub.dim == dim and sub.div == div**(k + 1) and sub.genus == curve.genus**(k + 1) and sub.mult == mult and sub.pnum == curve.pnum, 'parameters')
    for p in range(mult):
        same_levels(ctx, got.patterns[p], plain.level(ref_id(dim), p, k + 1), 'fractions of subdivision')
    if div**dim <= 4 and k == 1:
        inv = Plain.of((~curve).get_subdivision(k))
        for p in range(mult):
            same = [(c, ref_rev(s[0]), s[1]) for c, s in plain.level(ref_rev(ref_id(dim)), p, k + 1)]
            ctx.check(EQ(tuple(c for c, _ in inv.patterns[p]), tuple(c for c, _, _ in same)), 'subdivision of the reversed curve')
    if deep == 'again':
        sub2 = sub.get_subdivision(1)
        for p in range(mult):
            same_levels(ctx, Plain.of(sub2).patterns[p], plain.level(ref_id(dim), p, 2 * (k + 1)), 'fractions of subdivision of subdivision')
    elif deep:
        p = mult - 1
        a = got.level(ref_id(dim), p, 2)
        b = plain.level(ref_id(dim), p, 2 * (k + 1))
        ctx.check(EQ(tuple(x[0] for x in a), tuple(x[0] for x in b)), 'subdivided curve goes through the same cubes deeper')


HARNESSES = [
    {'name': 'deep', 'fn': h_deep, 'quick': [{'dim': 2, 'div': 2, 'mult': 1, 'free': 4, 'n': 2}, {'dim': 2, 'div': 2, 'mult': 2, 'free': 0, 'n': 3}, {'dim': 1, 'div': 2, 'mult': 3, 'free': 0, 'n': 4}, {'dim': 3, 'div': 2, 'mult': 1, 'free': 0, 'n': 2}, {'dim': 2, 'div': 3, 'mult': 2, 'free': 0, 'n': 2}, {'dim': 2, 'div': 2, 'mult': 2, 'free': 0, 'n': 9, 'holes': [0, 5, 8]}, {'dim': 1, 'div': 2, 'mult': 3, 'free': 0, 'n': 20, 'holes': [0, 1, 9, 18, 19]}, {'dim': 2, 'div': 5, 'mult': 1, 'free': 0, 'n': 3, 'holes': [0, 2]}, {'dim': 3, 'div': 2, 'mult': 2, 'free': 0, 'n': 5, 'holes': [0, 3]}, {'dim': 4, 'div': 2, 'mult': 1, 'free': 0, 'n': 3, 'holes': [1, 2]}, {'dim': 1, 'div': 12, 'mult': 7, 'free': 0, 'n': 4, 'holes': [0]}],
     'thorough': [{'dim': 2, 'div': 2, 'mult': 2, 'free': 8, 'n': 3}, {'dim': 3, 'div': 2, 'mult': 1, 'free': 2, 'n': 2}, {'dim': 2, 'div': 3, 'mult': 2, 'free': 0, 'n': 3}, {'dim': 1, 'div': 2, 'mult': 3, 'free': 6, 'n': 5}]},
    {'name': 'compose', 'fn': h_compose, 'quick': [{'dim': 2, 'div': 2, 'mult': 2, 'free': 0}, {'dim': 2, 'div': 2, 'mult': 1, 'free': 4}, {'dim': 3, 'div': 2, 'mult': 1, 'free': 0}],
     'thorough': [{'dim': 2, 'div': 2, 'mult': 2, 'free': 8}, {'dim': 3, 'div': 2, 'mult': 1, 'free': 1}, {'dim': 2, 'div': 3, 'mult': 1, 'free': 3}]},
    {'name': 'sub', 'fn': h_sub, 'quick': [{'dim': 2, 'div': 2, 'mult': 1, 'free': 4, 'k': 1, 'deep': True}, {'dim': 2, 'div': 2, 'mult': 2, 'free': 8, 'k': 1, 'deep': False},
                                           {'dim': 2, 'div': 2, 'mult': 2, 'free': 0, 'k': 2, 'deep': False}, {'dim': 1, 'div': 3, 'mult': 3, 'free': 0, 'k': 2, 'deep': True}, {'dim': 3, 'div': 2, 'mult': 1, 'free': 0, 'k': 1, 'deep': False}, {'dim': 2, 'div': 3, 'mult': 1, 'free': 0, 'k': 0, 'deep': False}, {'dim': 1, 'div': 2, 'mult': 4, 'free': 0, 'k': 1, 'deep': 'again'}, {'dim': 2, 'div': 2, 'mult': 3, 'free': 0, 'k': 1, 'deep': 'again'}, {'dim': 1, 'div': 2, 'mult': 2, 'free': 0, 'k': 4, 'deep': False}, {'dim': 2, 'div': 4, 'mult': 1, 'free': 0, 'k': 1, 'deep': False}, {'dim': 3, 'div': 2, 'mult': 2, 'free': 0, 'k': 1, 'deep': False}, {'dim': 4, 'div': 2, 'mult': 1, 'free': 0, 'k': 1, 'deep': False}],
     'thorough': [{'dim': 2, 'div': 2, 'mult': 2, 'free': 8, 'k': 1, 'deep': True}, {'dim': 2, 'div': 2, 'mult': 2, 'free': 2, 'k': 2, 'deep': False}, {'dim': 3, 'div': 2, 'mult': 1, 'free': 3, 'k': 1, 'deep': False}, {'dim': 2, 'div': 3, 'mult': 1, 'free': 3, 'k': 1, 'deep': False}, {'dim': 1, 'div': 2, 'mult': 3, 'free': 6, 'k': 3, 'deep': True}]},
]
