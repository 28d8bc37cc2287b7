"""C15: gates generation lists, up to symmetry, exactly the boundary gates that some curve has, once each."""
import itertools
import json
from symx.api import *
from harness.common import *

FUNCTIONS = ['peano.gates.GatesGenerator.gen_gates/_gen_all_gates/_gen_facet_gates/_check_variants/_check_and_std/_gen_narrow_links',
             'peano.curves.FuzzyCurve.get_entrance/get_exit', 'peano.paths.PathsGenerator.get_paths_example/generate_paths/generate_paths_generic', 'peano.subsets.Link.std/argmul_intersect', 'peano.subsets.Point.face_dim']
BOUNDS = ('configurations (dim, div, patterns): quick all gates (1,2..4,1..2), (2,2,1), (2,3,1), facet gates (2,2,1..2), (2,3,1..2), (3,2,1); all gates (3,2,1); thorough also (2,4,1), (2,2,2) all gates, (2,2,3), (2,4,2) facet gates; '
          'soundness and a table of known gates (curve symbolic, gates fixed) also for (2,2,2), (2,4..5,1) all gates, (2,3..4,2), (2,2,3), (3,2,2) facet gates; thorough (2,2,4), (2,3,3), (2,5,2) facet gates; '
          'the curve (cube, orientation and pattern of every fraction, real coordinates of every gate) is a solver variable; list compared with the one after an abandoned run')
OUTSIDE = 'larger configurations; curves with internal gates (excluded by definition)'
ASSUMPTIONS = ['quicktions.Fraction is exact rational arithmetic', 'without loss of generality each entrance is in the corner simplex 0 <= e_0 <= ... <= 1/2 (each pattern may be replaced by its image)']

_cache = {}


def frac(t):
    return Fraction(int(t.split('/')[0]), int((t + '/1').split('/')[1]))


def listed(dim, div, mult, only_facet):
    """The generator's list: concrete arguments, so the untouched code is run as it is; what the list means is decided by the solver."""
    key = (dim, div, mult, only_facet)
    if key not in _cache:
        if SYM:
            _cache[key] = [tuple(tuple(tuple(frac(x) for x in p) for p in g) for g in t) for t in json.loads(native(SCRIPT, *map(int, key)))]
        else:
            from peano.gates import GatesGenerator
            gen = GatesGenerator(dim=dim, div=div, mult=mult, only_facet=only_facet)
            next(iter(gen.gen_gates()), None)    # an abandoned earlier run leaves nothing behind
            _cache[key] = [tuple((tuple(g.entrance), tuple(g.exit)) for g in t) for t in gen.gen_gates()]
    return _cache[key]


SCRIPT = """
import json, sys
from peano.gates import GatesGenerator
dim, div, mult, facet = map(int, sys.argv[1:])
gen = GatesGenerator(dim=dim, div=div, mult=mult, only_facet=bool(facet))
next(iter(gen.gen_gates()), None)
print(json.dumps([[[[str(x) for x in p] for p in (g.entrance, g.exit)] for g in t] for t in gen.gen_gates()]))
"""


def boundary(p, facet_only):
    on = [OR([x == 0, x == 1]) for x in p]
    if not facet_only:
        return OR(on)
    return OR([AND([c if i == j else NOT(c) for i, c in enumerate(on)]) for j in range(len(p))])


def images(dim, g):
    """All images of a gate, including reversed."""
    e, x = g
    out = {}
    for k in all_maps(dim):
        a, b = ref_x(k, e), ref_x(k, x)
        out[(b, a) if k[1] else (a, b)] = 1
    return list(out)


def sel_link(ctx, name, dim, gates):
    """Link of a fraction: image of one of the gates under a map (symbolic permutation / flips / reversal / pattern)."""
    perm = [[ctx.bool('%s.p%d%d' % (name, i, j)) for j in range(dim)] for i in range(dim)]
    flip = [ctx.bool('%s.f%d' % (name, j)) for j in range(dim)]
    rev = ctx.bool(name + '.r')
    cs = []
    for i in range(dim):
        cs.append(OR(perm[i]))
        cs.append(OR([perm[j][i] for j in range(dim)]))
        for a, b in itertools.combinations(range(dim), 2):
            cs.append(NOT(AND([perm[i][a], perm[i][b]])))
            cs.append(NOT(AND([perm[a][i], perm[b][i]])))
    if len(gates) > 1:
        pn = [ctx.bool('%s.n%d' % (name, q)) for q in range(len(gates))]
        cs.append(OR(pn))
        for a, b in itertools.combinations(range(len(gates)), 2):
            cs.append(NOT(AND([pn[a], pn[b]])))
    else:
        pn = [True]
    en = tuple(ctx.frac('%s.e%d' % (name, j)) for j in range(dim))
    ex = tuple(ctx.frac('%s.x%d' % (name, j)) for j in range(dim))
    for q, (E, X) in enumerate(gates):
        for j in range(dim):
            for i in range(dim):
                for f in (False, True):
                    for r in (False, True):
                        a, b = (X, E) if r else (E, X)
                        cond = AND([pn[q], perm[j][i], flip[j] if f else NOT(flip[j]), rev if r else NOT(rev)])
                        cs.append(IMP(cond, AND([en[j] == (1 - a[i] if f else a[i]), ex[j] == (1 - b[i] if f else b[i])])))
    return en, ex, AND(cs)


def h_complete(ctx, dim, div, mult, only_facet):
    out = listed(dim, div, mult, only_facet)
    gates, cs = [], []
    for p in range(mult):
        E = tuple(ctx.frac('E%d_%d' % (p, j), 0, 1) for j in range(dim))
        X = tuple(ctx.frac('X%d_%d' % (p, j), 0, 1) for j in range(dim))
        gates.append((E, X))
        cs += [boundary(E, only_facet), boundary(X, only_facet)]
        for j in range(dim):
            cs.append((E[j] <= E[j + 1]) if j + 1 < dim else (2 * E[j] <= 1))
    cs += curve_with(ctx, dim, div, gates)
    new = []
    for t in out:
        alts = []
        for perm in set(itertools.permutations(t)):
            alts.append(AND([OR([EQ((E, X), im) for im in images(dim, g)]) for (E, X), g in zip(gates, perm)]))
        new.append(NOT(OR(alts)))
    ctx.check(NOT(AND(cs + new)), 'the gates of every boundary curve are listed')


def h_known(ctx, dim, div, mult, only_facet):
    """Gates fixed to a table, the curve symbolic: gates that are not listed have no curve."""
    canon = lambda t: tuple(sorted(min(images(dim, g)) for g in t))
    out = {canon(t) for t in listed(dim, div, mult, only_facet)}
    for t in GATES[dim, div, mult, only_facet].split(';'):
        gates = [tuple(tuple(frac(x) for x in p.split(',')) for p in g.split('>')) for g in t.split()]
        if canon(gates) in out:
            ctx.check(True, 'listed')
        else:
            ctx.check(NOT(AND(curve_with(ctx, dim, div, gates))), 'gates of a curve are listed: ' + t)


def curve_with(ctx, dim, div, gates):
    """Constraints: a continuous curve (cube, orientation, pattern of every fraction) with these gates."""
    G = div**dim
    cs = []
    cubes = list(itertools.product(range(div), repeat=dim))
    for p, (E, X) in enumerate(gates):
        pos = []
        for i in range(G):
            en, ex, c = sel_link(ctx, 'l%d_%d' % (p, i), dim, gates)
            cs.append(c)
            at = {q: ctx.bool('c%d_%d_%s' % (p, i, ''.join(map(str, q)))) for q in cubes}
            cs.append(OR(list(at.values())))
            for a, b in itertools.combinations(cubes, 2):
                cs.append(NOT(AND([at[a], at[b]])))
            co = tuple(ctx.frac('k%d_%d_%d' % (p, i, j), 0, div - 1) for j in range(dim))
            for q in cubes:
                cs.append(IMP(at[q], EQ(co, q)))
            pos.append((en, ex, at, co))
        for q in cubes:
            for a, b in itertools.combinations(range(G), 2):
                cs.append(NOT(AND([pos[a][2][q], pos[b][2][q]])))
            cs.append(OR([pos[i][2][q] for i in range(G)]))
        for j in range(dim):
            cs.append(div * E[j] == pos[0][3][j] + pos[0][0][j])
            cs.append(div * X[j] == pos[-1][3][j] + pos[-1][1][j])
            for i in range(G - 1):
                cs.append(pos[i][3][j] + pos[i][1][j] == pos[i + 1][3][j] + pos[i + 1][0][j])
    return cs


def h_sound(ctx, dim, div, mult, only_facet):
    """Every listed tuple: gates on the boundary, pairwise different up to symmetry, and realized by a curve (found by the solver-checked path generator)."""
    from peano.paths import PathsGenerator
    from peano.subsets import Link, Point
    out = listed(dim, div, mult, only_facet)
    a = ctx.int('a', 0, max(0, len(out) - 1))
    b = ctx.int('b', 0, max(0, len(out) - 1))
    canon = [tuple(sorted(min(images(dim, g)) for g in t)) for t in out]
    same = OR([AND([a == i, b == j]) for i in range(len(out)) for j in range(len(out)) if canon[i] == canon[j]])
    ctx.check(IMP(same, a == b), 'no gates twice')
    for t in out:
        ctx.check(len(t) == mult, 'one gate per pattern')
        for e, x in t:
            for p in (e, x):
                n = sum(1 for y in p if y == 0 or y == 1)
                ctx.check(all(0 <= y <= 1 for y in p), 'in the cube')
                ctx.check(n == 1 if only_facet else n >= 1, 'on the boundary')
            ctx.check((e, x) == min(images(dim, (e, x))), 'gates in standard form')
        paths = PathsGenerator(dim, div, [Link(Point(e), Point(x)) for e, x in t]).get_paths_example()
        ctx.check(paths is not None, 'listed gates have paths')
        allg = {im for g in t for im in images(dim, g)}
        for path, (e, x) in zip(paths, t):
            ls = [(tuple(l.entrance), tuple(l.exit)) for l in path.links]
            cubes = [tuple(c) for c in path.proto]
            ctx.check(all(l in allg for l in ls), 'fractions use the gates')
            ctx.check(sorted(cubes) == sorted(itertools.product(range(div), repeat=dim)), 'path fills the cube')
            glue = [tuple(p + q for p, q in zip(c, l[1])) == tuple(p + q for p, q in zip(c2, l2[0])) for c, c2, l, l2 in zip(cubes, cubes[1:], ls, ls[1:])]
            ctx.check(all(glue), 'path is continuous')
            ctx.check(tuple(div * y for y in e) == tuple(p + q for p, q in zip(cubes[0], ls[0][0])) and tuple(div * y for y in x) == tuple(p + q for p, q in zip(cubes[-1], ls[-1][1])), 'path has these gates')


# gates known to have curves; the solver confirms it for each one that is missing from the list
GATES = {
    (2, 2, 2, False): '0,1/3>1/3,1 0,1/3>1,1/3;0,0>0,1/2 0,0>1/2,1;0,0>0,1 0,0>1/2,1;0,0>0,1 0,1/2>1,1/2;0,0>0,1 0,1/2>1/2,0;0,0>0,1 0,0>0,1;0,0>0,1 0,1/2>0,1/2;0,0>0,1 0,0>1,1;0,0>0,1 0,0>2/3,1',
    (2, 2, 3, True): '0,1/3>0,2/3 0,1/3>1/3,1 0,1/3>1,1/3;0,1/6>0,5/6 0,1/3>1/3,1 0,1/3>1,1/3;0,1/3>1/3,1 0,1/3>1,1/3 0,1/3>1,1/3;0,1/6>1,1/6 0,1/3>1/3,1 0,1/3>1,1/3;0,1/3>1/3,1 0,1/3>1/3,1 0,1/3>1,1/3;0,1/6>1/6,1 0,1/3>1/3,1 0,1/3>1,1/3',
    (2, 2, 4, True): '0,1/3>0,2/3 0,1/3>0,2/3 0,1/3>1/3,1 0,1/3>1,1/3;0,1/6>0,5/6 0,1/3>0,2/3 0,1/3>1/3,1 0,1/3>1,1/3;0,1/6>0,5/6 0,1/6>0,5/6 0,1/3>1/3,1 0,1/3>1,1/3;0,1/3>0,2/3 0,1/3>1/3,1 0,1/3>1,1/3 0,1/3>1,1/3;0,1/6>1,1/6 0,1/3>0,2/3 0,1/3>1/3,1 0,1/3>1,1/3;0,1/6>0,5/6 0,1/3>1/3,1 0,1/3>1,1/3 0,1/3>1,1/3;0,1/6>0,5/6 0,1/6>1,1/6 0,1/3>1/3,1 0,1/3>1,1/3;0,1/3>0,2/3 0,1/3>1/3,1 0,1/3>1/3,1 0,1/3>1,1/3;0,1/6>1/6,1 0,1/3>0,2/3 0,1/3>1/3,1 0,1/3>1,1/3;0,1/6>0,5/6 0,1/3>1/3,1 0,1/3>1/3,1 0,1/3>1,1/3;0,1/6>0,5/6 0,1/6>1/6,1 0,1/3>1/3,1 0,1/3>1,1/3;0,1/3>1/3,1 0,1/3>1,1/3 0,1/3>1,1/3 0,1/3>1,1/3;0,1/6>1,1/6 0,1/3>1/3,1 0,1/3>1,1/3 0,1/3>1,1/3;0,1/6>1,1/6 0,1/6>1,1/6 0,1/3>1/3,1 0,1/3>1,1/3;0,1/3>1/3,1 0,1/3>1/3,1 0,1/3>1,1/3 0,1/3>1,1/3;0,1/6>1/6,1 0,1/3>1/3,1 0,1/3>1,1/3 0,1/3>1,1/3;0,1/6>1/6,1 0,1/3>1/3,1 0,1/3>1,1/3 0,5/12>1,5/12;0,1/6>1,1/6 0,1/3>1/3,1 0,1/3>1/3,1 0,1/3>1,1/3;0,1/6>1/6,1 0,1/6>1,1/6 0,1/3>1/3,1 0,1/3>1,1/3;0,1/12>1,1/12 0,1/6>1/6,1 0,1/3>1/3,1 0,1/3>1,1/3;0,1/5>1/5,1 0,1/5>1,1/5 0,2/5>2/5,1 0,2/5>1,2/5;0,1/3>1/3,1 0,1/3>1/3,1 0,1/3>1/3,1 0,1/3>1,1/3;0,1/6>1/6,1 0,1/3>1/3,1 0,1/3>1/3,1 0,1/3>1,1/3;0,1/6>1/6,1 0,1/6>1/6,1 0,1/3>1/3,1 0,1/3>1,1/3',
    (2, 3, 2, True): '0,1/4>1/4,1 0,1/4>1,3/4;0,1/4>1/4,1 0,1/4>1,1/4',
    (2, 3, 3, True): '0,1/12>0,3/4 0,1/4>1/4,1 0,1/4>1,3/4;0,1/4>0,3/4 0,1/4>1/4,1 0,1/4>1,1/4;0,1/12>0,11/12 0,1/4>1/4,1 0,1/4>1,1/4;0,1/12>1,11/12 0,1/4>1/4,1 0,1/4>1,3/4;0,1/4>1/4,1 0,1/4>1,3/4 0,1/4>1,3/4;0,1/12>1,3/4 0,1/4>1/4,1 0,1/4>1,1/4;0,1/12>1,1/4 0,1/4>1/4,1 0,1/4>1,3/4;0,1/4>1/4,1 0,1/4>1,1/4 0,1/4>1,3/4;0,1/4>1/4,1 0,1/4>1,1/4 0,1/4>1,1/4;0,1/12>1,1/12 0,1/4>1/4,1 0,1/4>1,1/4;0,1/12>1/12,1 0,1/4>1/4,1 0,1/4>1,3/4;0,1/4>1/4,1 0,1/4>1/4,1 0,1/4>1,3/4;0,1/10>7/10,0 0,1/10>7/10,1 0,1/10>1,7/10;0,1/4>1/4,1 0,1/4>3/4,1 0,1/4>1,3/4;0,1/12>3/4,1 0,1/4>1/4,1 0,1/4>1,3/4;0,1/4>1/4,1 0,1/4>1/4,1 0,1/4>1,1/4;0,1/12>1/12,1 0,1/4>1/4,1 0,1/4>1,1/4;0,1/12>3/4,1 0,1/4>1/4,1 0,1/4>1,1/4;0,1/4>1/4,1 0,1/4>3/4,1 0,1/4>1,1/4;0,1/10>7/10,0 0,1/10>7/10,1 0,1/10>1,3/10',
    (2, 4, 1, False): '0,0>0,1;0,0>1/2,1',
    (2, 4, 2, True): '0,1/5>1/5,1 0,1/5>1,1/5;0,2/5>2/5,1 0,2/5>1,2/5;0,1/3>1/3,1 0,1/3>1,1/3',
    (2, 5, 1, False): '0,0>0,1;0,0>1/2,1;0,0>1,1',
    (2, 5, 2, True): '0,1/6>1/6,1 0,1/6>1,1/6;0,1/6>1/6,1 0,1/6>1,5/6;0,1/6>1/2,0 0,1/6>1,1/2;0,1/6>1/2,1 0,1/6>1,1/2;0,1/2>1/2,0 0,1/2>1,1/2',
    (3, 2, 2, True): '0,1/3,1/3>0,1/3,2/3 0,1/3,1/3>1/3,1/3,1;0,1/6,1/3>0,5/6,1/3 0,1/3,1/3>1/3,1/3,1;0,1/6,1/3>0,1/6,2/3 0,1/3,1/3>1/3,1/3,1;0,1/6,1/6>0,1/6,5/6 0,1/3,1/3>1/3,1/3,1;0,1/3,1/3>1/3,1/3,1 0,1/3,1/3>1,2/3,2/3;0,1/6,1/6>1,1/3,1/3 0,1/3,1/3>1/3,1/3,1;0,1/6,1/3>1,1/3,1/6 0,1/3,1/3>1/3,1/3,1;0,1/3,1/3>1/3,1/3,1 0,1/3,1/3>1,1/3,1/3;0,1/6,1/3>1,1/6,1/3 0,1/3,1/3>1/3,1/3,1;0,1/6,1/6>1,1/6,1/6 0,1/3,1/3>1/3,1/3,1;0,1/6,1/6>1,2/3,2/3 0,1/3,1/3>1/3,1/3,1;0,1/6,1/3>1,2/3,5/6 0,1/3,1/3>1/3,1/3,1;0,1/6,1/6>1/3,1/3,1 0,1/6,1/6>2/3,0,1/3;0,1/6,1/6>1/3,0,2/3 0,1/3,1/3>1/3,1/3,1;0,1/3,1/3>1/3,0,2/3 0,1/3,1/3>1/3,1/3,1;0,1/6,1/3>1/6,0,2/3 0,1/3,1/3>1/3,1/3,1;0,1/6,1/3>1/3,5/6,0 0,1/3,1/3>1/3,1/3,1;0,1/6,1/6>1/3,1/3,1 0,1/3,1/3>1/3,1/3,1;0,1/6,1/3>1/3,1/6,1 0,1/3,1/3>1/3,1/3,1;0,1/6,1/3>1/6,1,1/3 0,1/3,1/3>1/3,1/3,1;0,1/5,1/5>3/5,0,2/5 0,2/5,2/5>2/5,2/5,1;0,1/6,1/6>2/3,0,1/3 0,1/3,1/3>1/3,1/3,1;0,1/5,1/5>1/5,1/5,1 0,1/5,1/5>3/5,0,2/5;0,1/6,1/3>2/3,5/6,1 0,1/3,1/3>1/3,1/3,1;0,1/6,1/3>5/6,1,2/3 0,1/3,1/3>1/3,1/3,1;0,1/3,1/3>1/3,1/3,1 0,1/3,1/3>2/3,2/3,1;0,1/6,1/6>2/3,2/3,1 0,1/3,1/3>1/3,1/3,1;0,1/5,2/5>1/5,2/5,1 0,1/5,2/5>3/5,1,4/5;0,1/6,1/6>1/3,0,2/3 0,1/6,1/6>2/3,2/3,1;0,1/3,1/3>1/3,1/3,1 0,1/3,1/3>1/3,1/3,1;0,1/6,1/3>1/3,1,1/6 0,1/3,1/3>1/3,1/3,1;0,1/6,1/3>1/6,1/3,1 0,1/3,1/3>1/3,1/3,1;0,1/6,1/6>1/6,1/6,1 0,1/3,1/3>1/3,1/3,1;0,1/5,1/5>1/5,1/5,1 0,2/5,2/5>2/5,2/5,1;0,1/5,2/5>1/5,2/5,1 0,1/5,2/5>2/5,1,1/5',
}


def c(dim, div, mult, only_facet=False):
    return dict(dim=dim, div=div, mult=mult, only_facet=only_facet)


Q = [c(1, 2, 1), c(1, 3, 1), c(1, 4, 1), c(1, 2, 2), c(2, 2, 1), c(2, 3, 1), c(2, 2, 1, True), c(2, 3, 1, True), c(2, 2, 2, True), c(3, 2, 1, True), dict(c(3, 2, 1), _w=9)]
T = [c(2, 3, 2, True), c(2, 2, 2), c(2, 4, 1), c(2, 2, 3, True), c(2, 4, 2, True)]
KQ = [dict(c(2, 2, 2), _w=9), c(2, 3, 2, True), c(2, 4, 2, True), c(2, 2, 3, True), c(3, 2, 2, True), c(2, 4, 1), c(2, 5, 1)]
KT = [c(2, 2, 4, True), c(2, 3, 3, True), c(2, 5, 2, True)]
HARNESSES = [
    {'name': 'complete', 'fn': h_complete, 'quick': Q, 'thorough': T, 'path_timeout': 3000},
    {'name': 'known', 'fn': h_known, 'quick': KQ, 'thorough': KT, 'path_timeout': 900},
    {'name': 'sound', 'fn': h_sound, 'quick': Q + KQ, 'thorough': KT, 'path_timeout': 900},
]
