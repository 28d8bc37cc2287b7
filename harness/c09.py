"""C09: moments at which a curve first/last touches a face or vertex are exact."""
import itertools
from symx.api import *
from harness.common import *

FUNCTIONS = ['peano.curves.FuzzyCurve.get_face_moment/_get_face_cnum/get_vertex_moments/_compose_specs/_get_limit_point', 'peano.utils.get_periodic_sum', 'peano.utils.gen_faces']
BOUNDS = ('curves with arbitrary prototypes (every order of the cubes of dim 2 div 2, dim 1 div 2..4; dim 3 div 2 and dim 2 div 3: every cube of the touching positions symbolic, 4 prototypes '
          'in quick), arbitrary orientation at one position and varied tables elsewhere, 1..2 patterns, every face of every dimension, first and last touch, with and without the point; tables of up to 12 variants for 1-D with 9 patterns, div 5, 11, dim 3 with 2 patterns, dim 4')
OUTSIDE = 'all combinations of orientations; dim >= 5'
ASSUMPTIONS = ['the functional equation T = (c + T\')/G determines the first/last touch time (contraction)']


def faces(dim):
    return list(itertools.product((None, 0, 1), repeat=dim))


def touches(cube, face, div):
    return AND([cube[j] == (0 if f == 0 else div - 1) for j, f in enumerate(face) if f is not None])


def pull(k, face):
    """Face of the source cube mapped by k onto face."""
    out = [None] * len(face)
    for i, (s, b) in enumerate(k[0]):
        if face[i] is not None:
            out[s] = 1 - face[i] if b else face[i]
    return tuple(out)


def check_all(ctx, curve, plain, pts, fs):
    G, div, dim = plain.genus, plain.div, plain.dim
    memo = {}

    def T(p, f, last):
        key = (p, f, last)
        if key not in memo:
            memo[key] = curve.get_face_moment(f, pnum=p, last=last)
        return memo[key]

    def P(p, f, last):
        key = (p, f, last, 'pt')
        if key not in memo:
            memo[key] = curve.get_face_moment(f, pnum=p, last=last, find_point=True)
        return memo[key]
    for p in range(curve.mult):
        for f in fs:
            for last in (False, True):
                t = T(p, f, last)
                # which fraction is touched first/last
                order = list(enumerate(plain.patterns[p]))
                if last:
                    order.reverse()
                earlier = False
                for c, (cube, (k, q)) in order:
                    here = AND([touches(cube, f, div), NOT(earlier)])
                    if _maybe(here):
                        l2 = last ^ k[1]
                        sub = T(q, pull(k, f), l2)
                        ctx.check(IMP(here, EQ(t * G, c + (1 - sub if k[1] else sub))), 'moment of first/last touch')
                        if pts:
                            a, b = P(p, f, last), P(q, pull(k, f), l2)
                            ctx.check(IMP(here, EQ(tuple(v * div for v in a.x), tuple(u + v for u, v in zip(cube, ref_x(k, tuple(b.x)))))), 'point of touch')
                            ctx.check(EQ(a.t, t), 'moment with point equals the moment')
                    earlier = OR([earlier, touches(cube, f, div)])
                if pts:
                    a = P(p, f, last)
                    ctx.check(AND([a.x[j] == v for j, v in enumerate(f) if v is not None]), 'touch point lies on the face')
    return T


def _maybe(c):
    """Could c hold on this path?"""
    if c is False:
        return False
    if c is True:
        return True
    return bool(c)


def distinct(ctx, cubes):
    for a, b in itertools.combinations(cubes, 2):
        ctx.assume(NOT(EQ(a, b)))


def h_moment(ctx, dim, div, mult, pts=False, nfree=1, protos=None, nf=None, pos=None, seeds=1):
    G = div**dim
    cubes = []
    for p in range(mult):
        if protos is not None and p < len(protos):
            cubes.append([tuple(c) for c in protos[p]])
        else:
            cs = sym_cubes(ctx, 'c%d_' % p, dim, div)
            distinct(ctx, cs)
            cubes.append(cs)
    specs = table(dim, G, mult, ctx.choose('seed', list(range(seeds))) if seeds > 1 else 0)
    if nfree:
        p, c = ctx.choose('pos', [tuple(q) for q in pos] if pos else [(p, c) for p in range(mult) for c in range(G)])
        specs[p][c] = any_spec(ctx, 's', dim, mult)
    pn = ctx.choose('pn', list(range(mult)))
    curve = mk_curve(dim, div, cubes, specs, pn)
    fs = faces(dim)
    if nf:
        fs = fs[ctx.choose('face', list(range(nf)))::nf]
    T = check_all(ctx, curve, Plain.of(curve), pts, fs)
    # a moved curve, after the original was asked
    k = mix(dim, 6)
    moved = spec_of(k, pn) * curve
    for f in fs:
        for last in (False, True):
            t = T(pn, pull(k, f), last ^ k[1])
            ctx.check(EQ(moved.get_face_moment(f, last=last), 1 - t if k[1] else t), 'moment of the moved curve')
    vs = curve.get_vertex_moments()
    ctx.check(set(vs) == set(itertools.product((0, 1), repeat=dim)), 'vertex moments cover all vertices')
    for v, t in vs.items():
        ctx.check(EQ(t, T(pn, v, False)), 'vertex moment is the (first) touch of the vertex')
        ctx.check(EQ(t, T(pn, v, True)), 'a vertex is visited once')
    vs = curve.get_vertex_moments(0)
    ctx.check(AND([EQ(t, T(0, v, False)) for v, t in vs.items()]), 'vertex moments of another pattern')
    ctx.check(EQ(curve.get_face_moment(fs[-1]), T(pn, fs[-1], False)), 'default pattern and default first')


def snk(dim, div, m=0):
    """Boustrophedon prototype, mapped by mix(m)."""
    return [ref_cube(mix(dim, m), div, c) for c in snake(dim, div)]


HARNESSES = [
    {'name': 'moment', 'fn': h_moment,
     'quick': [{'dim': 1, 'div': 2, 'mult': 1, 'pts': True}, {'dim': 1, 'div': 3, 'mult': 2, 'nfree': 0, 'protos': [snk(1, 3)], 'pts': True}, {'dim': 1, 'div': 4, 'mult': 1},
               *[{'dim': 2, 'div': 2, 'mult': 1, 'pos': [(0, c)], '_w': 5} for c in range(4)],
               {'dim': 2, 'div': 2, 'mult': 2, 'pts': True, 'protos': [snk(2, 2), snk(2, 2, 3)], 'nf': 3},
               {'dim': 2, 'div': 3, 'mult': 1, 'pts': True, 'protos': [snk(2, 3, 1)]},
               {'dim': 3, 'div': 2, 'mult': 1, 'pts': True, 'nfree': 0, 'protos': [snk(3, 2, 2)]},
               {'dim': 1, 'div': 3, 'mult': 9, 'pts': True, 'nfree': 0, 'seeds': 6, 'protos': [snk(1, 3, m) for m in range(9)]}, {'dim': 1, 'div': 11, 'mult': 2, 'pts': True, 'nfree': 0, 'seeds': 4, 'protos': [snk(1, 11, m) for m in range(2)]},
               {'dim': 2, 'div': 2, 'mult': 5, 'pts': True, 'nfree': 0, 'seeds': 12, 'protos': [snk(2, 2, m) for m in range(5)]}, {'dim': 2, 'div': 5, 'mult': 2, 'pts': True, 'nfree': 0, 'seeds': 8, 'protos': [snk(2, 5, m) for m in (1, 3)]},
               {'dim': 3, 'div': 2, 'mult': 2, 'pts': True, 'nfree': 0, 'seeds': 10, 'protos': [snk(3, 2, m) for m in (2, 5)]}, {'dim': 3, 'div': 3, 'mult': 1, 'pts': True, 'nfree': 0, 'seeds': 4, 'protos': [snk(3, 3, 4)]},
               {'dim': 4, 'div': 2, 'mult': 1, 'pts': True, 'nfree': 0, 'seeds': 4, 'protos': [snk(4, 2, 3)]}],
     'thorough': [{'dim': 1, 'div': 3, 'mult': 2, 'pts': True}, {'dim': 1, 'div': 5, 'mult': 1}, {'dim': 2, 'div': 2, 'mult': 1, 'pts': True},
                  {'dim': 2, 'div': 2, 'mult': 2, 'protos': [snk(2, 2, 4)], 'pts': True}, {'dim': 2, 'div': 3, 'mult': 2, 'protos': [snk(2, 3, 1), snk(2, 3, 4)], 'pts': True},
                  {'dim': 3, 'div': 2, 'mult': 1, 'protos': [snk(3, 2, 2)], 'pts': True}]},
]
