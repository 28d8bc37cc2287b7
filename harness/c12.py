"""C12: a fuzzy curve built from gates allows exactly the orientations compatible with the gates; specifying narrows it exactly."""
import itertools
from symx.api import *
from harness.common import *

FUNCTIONS = ['peano.curves.PathFuzzyCurve.init_from_paths/gen_allowed_specs/_changed', 'peano.curves.Curve.forget/get_paths/gen_allowed_specs',
             'peano.curves.FuzzyCurve.specify/_specify_allowed/gen_possible_curves/count_possible_curves/get_curve_example/gen_defined_specs', 'peano.subsets.Link.__lt__/__eq__/__hash__/__rmul__']
BOUNDS = ('curves whose first and last cubes are arbitrary (symbolic) with orientations drawn from varied tables, dim 1..3, div 2..3, 1..4 patterns, every orientation of the full group tested at every fraction; '
          'restrictions: time reversal disabled, subgroup of maps (4 subgroups); specify: every position and every orientation on 8 zoo families and after 1-2 earlier specifications; '
          'enumeration/count: every curve of 6 families as a solver variable; fuzzy curves moved by every isometry; selected pattern of forgetting and specifying')
OUTSIDE = 'larger dims; base_maps_group given as a one-shot iterator (the code reads it several times)'
ASSUMPTIONS = ['quicktions.Fraction is exact rational arithmetic']


def link_img(k, e, x):
    a, b = ref_x(k, e), ref_x(k, x)
    return (b, a) if k[1] else (a, b)


def ref_allowed(paths, p, c, group):
    """Conditions for each (map, pattern): map sends the pattern's global gates onto the gates of the fraction."""
    out = {}
    l = paths[p].links[c]
    for pn, path in enumerate(paths):
        for k in group:
            out[k, pn] = EQ(link_img(k, tuple(path.link.entrance), tuple(path.link.exit)), (tuple(l.entrance), tuple(l.exit)))
    return out


def exact(ctx, fuzzy, paths, group, what):
    for p in range(len(paths)):
        for c in range(len(paths[p].proto)):
            got = [(bmkey(s.base_map), s.pnum) for s in fuzzy.gen_allowed_specs(p, c)]
            ctx.check(len(set(got)) == len(got), what + ': no orientation twice')
            want = ref_allowed(paths, p, c, group)
            ctx.check(all(g in want for g in got), what + ': only maps of the group')
            ctx.check(AND([IFF(k in got, cond) for k, cond in want.items()]), what + ': exactly the orientations that respect the gates')


def subgroup(dim, which):
    """Closed subsets of the full group, as plain data."""
    if which == 'all':
        return all_maps(dim)
    if which == 'cyclic':
        gens = [mix(dim, 5)]
    elif which == 'notime':
        return all_maps(dim, False)
    elif which == 'flips':
        return [k for k in all_maps(dim) if all(i == j for j, (i, _) in enumerate(k[0]))]
    else:
        return [ref_id(dim)]
    g = {ref_id(dim)}
    while True:
        n = g | {ref_mul(a, b) for a in g for b in gens}
        if n == g:
            return sorted(g)
        g = n


def h_allowed(ctx, dim, div, mult, few, group='all', notime=False, via=True, sym=3):
    """forget() / init_from_paths on a curve with arbitrary end cubes; inner fractions placed anywhere with varied orientations."""
    from peano.base_maps import BaseMap
    from peano.curves import PathFuzzyCurve
    G = div**dim
    g = subgroup(dim, group)
    if notime:
        g = [k for k in g if not k[1]]
    cubes, specs = [], []
    for p in range(mult):
        cs = sym_cubes(ctx, 'c%d_' % p, dim, div, bin(sym).count('1') if p == 0 or mult == 1 else 1)
        if len(cs) == 1:
            far = (div - 1,) + (0,) * (dim - 1)
            cs = [cs[0], far] if (sym & 1) else [far, cs[0]]
        fixed = [tuple((i + j * p) % div for j in range(dim)) for i in range(G - 2)]
        cubes.append([cs[0]] + fixed + [cs[1]])
        row = []
        for c in range(G):
            if c in (0, G - 1):
                row.append(ctx.choose('s%d_%d' % (p, c), [(g[(7 * i + 3 * p + c) % len(g)], (i + p) % mult) for i in range(min(few, len(g) * mult))]))
            else:
                row.append((g[(5 * c + p) % len(g)], c % mult))
        specs.append(row)
    pn = mult - 1
    curve = mk_curve(dim, div, cubes, specs, pn)
    paths = curve.get_paths()
    kw = {}
    if notime:
        kw['disable_time_rev'] = True
    if group not in ('all',):
        kw['base_maps_group'] = [BaseMap(*k) for k in subgroup(dim, group)]
    fuzzy = curve.forget(**kw) if via else PathFuzzyCurve.init_from_paths(paths, **kw)
    ctx.check(fuzzy.dim == dim and fuzzy.div == div and fuzzy.mult == mult and fuzzy.genus == G and fuzzy.pnum == (pn if via else 0), 'parameters and selected pattern')
    for p in range(mult):
        ctx.check(EQ(tuple(fuzzy.patterns[p].proto), tuple(cubes[p])), 'prototype kept')
        ctx.check(all(s is None for s in fuzzy.patterns[p].specs), 'nothing specified yet')
    exact(ctx, fuzzy, paths, g, 'allowed')


def h_foreign(ctx, dim, div):
    """A fraction whose gates are no image of a global gate pair is refused (KeyError)."""
    from peano.curves import PathFuzzyCurve
    from peano.paths import Path, Proto
    from peano.subsets import Link, Point
    G = div**dim
    zero, one = (Fraction(0),) * dim, (Fraction(1),) + (Fraction(0),) * (dim - 1)
    cubes = [(0,) * dim] * (G - 1) + [(div - 1,) + (0,) * (dim - 1)]
    e = tuple(ctx.frac('e%d' % j, 0, 1, D=2) for j in range(dim))
    x = tuple(ctx.frac('x%d' % j, 0, 1, D=2) for j in range(dim))
    links = [Link(Point(zero), Point(one))] * G
    links[1] = Link(Point(e), Point(x))
    path = Path(Proto(dim, div, cubes), links)
    ok = OR([EQ(link_img(k, zero, one), (e, x)) for k in all_maps(dim)])
    try:
        f = PathFuzzyCurve.init_from_paths([path])
        good = True
    except KeyError:
        good = False
    ctx.check(IFF(good, ok), 'KeyError exactly for foreign gates')
    if good:
        exact(ctx, f, [path], all_maps(dim), 'allowed')


def h_gates(ctx, dim, div, mult, few, group='all', notime=False):
    """Paths with corner gates (also closed ones) of several patterns; each fraction carries an image of some pattern's gates."""
    from peano.base_maps import BaseMap
    from peano.curves import PathFuzzyCurve
    from peano.paths import Path, Proto
    from peano.subsets import Link, Point
    G = div**dim
    g = [k for k in subgroup(dim, group) if not (notime and k[1])]
    corners = [(0,) * dim, (1,) + (0,) * (dim - 1), (1,) * dim, (0,) * (dim - 1) + (1,), (1, 1) + (0,) * (dim - 2)][:5 if dim > 1 else 2]
    glob = []
    for p in range(mult):
        e = corners[p % len(corners)] if p else corners[0]
        x = ctx.choose('x%d' % p, [corners[(3 * i + p) % len(corners)] for i in range(few)])
        glob.append((e, x))
    paths = []
    for p, (e, x) in enumerate(glob):
        cubes = [tuple((div - 1) * v for v in e)] + [tuple((i + j * p) % div for j in range(dim)) for i in range(G - 2)] + [tuple((div - 1) * v for v in x)]
        links = []
        for c in range(G):
            a, b = link_img(g[(5 * c + 3 * p + c * c) % len(g)], *glob[(c + p) % mult])
            if c == 0:
                a, b = e, x
            elif c == G - 1:
                a, b = e, x
            links.append(Link(Point(map(Fraction, a)), Point(map(Fraction, b))))
        paths.append(Path(Proto(dim, div, cubes), links))
    kw = {}
    if notime:
        kw['disable_time_rev'] = True
    if group != 'all':
        kw['base_maps_group'] = [BaseMap(*k) for k in subgroup(dim, group)]
    fuzzy = PathFuzzyCurve.init_from_paths(paths, **kw)
    ctx.check(fuzzy.mult == mult and fuzzy.pnum == 0, 'parameters')
    exact(ctx, fuzzy, paths, g, 'allowed')


class _G:
    """Plain gates (entrance, exit) and a plain path."""

    def __init__(self, entrance, exit):
        self.entrance, self.exit = entrance, exit


class _P:
    def __init__(self, link, links, proto):
        self.link, self.links, self.proto = link, links, proto


def moved_paths(paths, move, div):
    """Paths of the curve moved by the isometry (cube part, then reversal), as plain data."""
    key, rev = move
    k = (key, False)
    out = []
    for p in paths:
        im = lambda l: (lambda e, x: _G(x, e) if rev else _G(e, x))(ref_x(k, tuple(l.entrance)), ref_x(k, tuple(l.exit)))
        links, proto = [im(l) for l in p.links], [ref_cube(k, div, tuple(c)) for c in p.proto]
        out.append(_P(im(p.link), links[::-1] if rev else links, proto[::-1] if rev else proto))
    return out


def move_fuzzy(fuzzy, move):
    from peano.base_maps import BaseMap
    return BaseMap(move[0], move[1]) * fuzzy


def h_specify(ctx, name, steps, poss=None, moves=None):
    """specify: accepts exactly allowed orientations, fixes that position only, keeps every other choice."""
    base, fuzzy = continuous_family(name)
    dim, G, mult = base.dim, base.genus, base.mult
    paths = base.get_paths()
    if moves:
        mv = mix(dim, ctx.choose('move', moves))
        fuzzy, paths = move_fuzzy(fuzzy, mv), moved_paths(paths, mv, base.div)
    cur, fixed = fuzzy, {}
    free = {(a, b): sorted(q for q, cond in ref_allowed(paths, a, b, all_maps(dim)).items() if cond) for a in range(mult) for b in range(G)}
    number = lambda fx: numprod(1 if q in fx else len(o) for q, o in free.items())
    for st in range(steps + 1):
        p, c = ctx.choose('pos%d' % st, [tuple(q) for q in poss] if poss else [(p, c) for p in range(mult) for c in range(G)])
        allowed = free[p, c]
        if st < steps:
            s = ctx.choose('sp%d' % st, allowed)
        else:
            s = any_spec(ctx, 'sp', dim, mult)
        want = (s == fixed[p, c]) if (p, c) in fixed else (s in allowed)
        before = Plain.of(cur).patterns
        ctx.check(cur.count_possible_curves() == number(fixed), 'number of curves before')
        try:
            new = cur.specify(p, c, spec_of(*s))
            ok = True
        except ValueError:
            ok = False
        ctx.check(ok == want, 'specify succeeds exactly for allowed orientations')
        ctx.check(Plain.of(cur).patterns == before, 'the original is not changed')
        ctx.check(cur.count_possible_curves() == number(fixed), 'the original keeps its curves')
        if not ok:
            return
        fixed[p, c] = s
        ctx.check({(a, b): (bmkey(q.base_map), q.pnum) for a, b, q in new.gen_defined_specs()} == fixed, 'defined orientations are those specified')
        for a in range(mult):
            for b in range(G):
                got = sorted((bmkey(q.base_map), q.pnum) for q in new.gen_allowed_specs(a, b))
                ctx.check(got == ([fixed[a, b]] if (a, b) in fixed else free[a, b]), 'choices after specify')
        ctx.check(new.pnum == fuzzy.pnum and len(new.patterns) == mult, 'selected pattern kept')
        ctx.check(new.count_possible_curves() == number(fixed), 'number of curves after')
        cur = new


def numprod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


_lists = {}


def curves_of(name, fixed, move=None):
    """Run the real enumeration once per process (no symbolic inputs)."""
    key = (name, fixed, move)
    if key not in _lists:
        base, _ = continuous_family(name)
        pn = 0 if move is None else move % base.mult
        base = spec_of(ref_id(base.dim), pn) * base
        fuzzy = base.forget()
        if move is not None:
            fuzzy = move_fuzzy(fuzzy, mix(base.dim, move))
        full = list(fuzzy.gen_possible_curves()) if fuzzy.count_possible_curves() <= 600 else None
        for p, c, i in fixed:
            fuzzy = fuzzy.specify(p, c, sorted(fuzzy.gen_allowed_specs(p, c), key=str)[i])
        curves, ex = list(fuzzy.gen_possible_curves()), fuzzy.get_curve_example()
        moved = base if move is None else move_fuzzy(base, mix(base.dim, move))
        same = all(c.pnum == pn for c in curves + [ex]) and (full is None or [c == moved for c in full].count(True) == 1)
        _lists[key] = (base, fuzzy, [Plain.of(c) for c in curves], fuzzy.count_possible_curves(), Plain.of(ex), same)
    return _lists[key]


def h_enum(ctx, name, fixed, move=None):
    """gen_possible_curves lists every compatible curve exactly once."""
    base, fuzzy, curves, count, example, same = curves_of(name, tuple(map(tuple, fixed)), move)
    dim, G, mult = base.dim, base.genus, base.mult
    paths = base.get_paths()
    if move is not None:
        paths = moved_paths(paths, mix(dim, move), base.div)
    sel, opts = {}, {}
    total = 1
    for p in range(mult):
        for c in range(G):
            o = sorted(q for q, cond in ref_allowed(paths, p, c, all_maps(dim)).items() if cond)
            s = fuzzy.patterns[p].specs[c]
            if s is not None:
                o = [(bmkey(s.base_map), s.pnum)]
            opts[p, c] = o
            total *= len(o)
            sel[p, c] = ctx.int('s%d_%d' % (p, c), 0, len(o) - 1)
    ctx.check(count == total and len(curves) == total, 'number of curves')
    ctx.check(same, 'selected pattern kept; a curve is among the curves of the fuzzy curve it was turned into')
    keys = set()
    hit = []
    for cv in curves + [example]:
        ctx.check([[tuple(q[0]) for q in pat] for pat in cv.patterns] == [[tuple(c) for c in q.proto] for q in paths], 'prototypes kept')
        row = {(p, c): cv.patterns[p][c][1] for p in range(mult) for c in range(G)}
        ctx.check(all(row[q] in opts[q] for q in row), 'only compatible orientations')
        if cv is not example:
            keys.add(tuple(sorted(row.items())))
            hit.append(AND([sel[q] == opts[q].index(row[q]) for q in row]))
    ctx.check(len(keys) == total, 'no curve twice')
    ctx.check(OR(hit), 'every compatible curve is listed')


HARNESSES = [
    {'name': 'allowed', 'fn': h_allowed, 'quick': [{'dim': 1, 'div': 3, 'mult': 2, 'few': 2}, {'dim': 2, 'div': 2, 'mult': 1, 'few': 3}, {'dim': 2, 'div': 2, 'mult': 1, 'few': 2, 'via': False}, {'dim': 2, 'div': 2, 'mult': 1, 'few': 2, 'notime': True}, {'dim': 2, 'div': 2, 'mult': 2, 'few': 1, 'sym': 1, 'via': False},
                                                   {'dim': 2, 'div': 2, 'mult': 1, 'few': 3, 'group': 'cyclic'}, {'dim': 2, 'div': 2, 'mult': 1, 'few': 2, 'group': 'flips'}, {'dim': 2, 'div': 2, 'mult': 1, 'few': 2, 'group': 'flips', 'notime': True, 'via': False}, {'dim': 2, 'div': 2, 'mult': 1, 'few': 1, 'group': 'id'},
                                                   {'dim': 2, 'div': 3, 'mult': 1, 'few': 1}, {'dim': 3, 'div': 2, 'mult': 1, 'few': 1, 'sym': 2}, {'dim': 1, 'div': 2, 'mult': 4, 'few': 1}, {'dim': 2, 'div': 2, 'mult': 3, 'few': 1, 'sym': 2}, {'dim': 3, 'div': 2, 'mult': 1, 'few': 1, 'sym': 1, 'notime': True, 'via': False}, {'dim': 3, 'div': 2, 'mult': 1, 'few': 1, 'group': 'flips', 'sym': 1}, {'dim': 2, 'div': 3, 'mult': 2, 'few': 1, 'sym': 1}],
     'thorough': [{'dim': 1, 'div': 4, 'mult': 3, 'few': 4}, {'dim': 2, 'div': 2, 'mult': 1, 'few': 16}, {'dim': 2, 'div': 2, 'mult': 2, 'few': 2}, {'dim': 2, 'div': 3, 'mult': 1, 'few': 6}, {'dim': 3, 'div': 2, 'mult': 1, 'few': 3}] + [{'dim': 2, 'div': v, 'mult': 1, 'few': 6, 'group': g, 'notime': t} for v in (2, 3) for g in ('all', 'cyclic', 'flips', 'id') for t in (False, True)]},
    {'name': 'gates', 'fn': h_gates, 'quick': [{'dim': 1, 'div': 3, 'mult': 3, 'few': 2}, {'dim': 2, 'div': 2, 'mult': 1, 'few': 5}, {'dim': 2, 'div': 2, 'mult': 3, 'few': 2, 'notime': True}, {'dim': 2, 'div': 3, 'mult': 4, 'few': 1}, {'dim': 3, 'div': 2, 'mult': 1, 'few': 5}, {'dim': 3, 'div': 2, 'mult': 1, 'few': 3, 'notime': True}, {'dim': 3, 'div': 2, 'mult': 3, 'few': 1, 'group': 'flips'}, {'dim': 2, 'div': 2, 'mult': 5, 'few': 1, 'group': 'cyclic'}, {'dim': 4, 'div': 2, 'mult': 1, 'few': 2, 'group': 'flips'}], 'thorough': [{'dim': 3, 'div': 2, 'mult': 2, 'few': 3}, {'dim': 4, 'div': 2, 'mult': 1, 'few': 1}]},
    {'name': 'foreign', 'fn': h_foreign, 'quick': [{'dim': 1, 'div': 3}, {'dim': 2, 'div': 2}, {'dim': 2, 'div': 3}], 'thorough': [{'dim': 3, 'div': 2}]},
    {'name': 'specify', 'fn': h_specify, 'quick': [{'name': 'get_hilbert_curve', 'steps': 1}, {'name': 'get_peano_curve', 'steps': 1, 'poss': [(0, 0), (0, 5)]}, {'name': 'get_beta_omega_curve', 'steps': 1}, {'name': 'get_ARW_Curve', 'steps': 1, 'poss': [(0, 1), (3, 2)]}, {'name': 'get_neptunus_curve', 'steps': 0, 'poss': [(0, 0), (1, 5)]}, {'name': 'get_hilbert_curve', 'steps': 1, 'poss': [(0, 0), (0, 2)], 'moves': [0, 1, 2, 3, 6]}, {'name': 'get_beta_omega_curve', 'steps': 1, 'poss': [(0, 0), (1, 3)], 'moves': [1, 5]}, {'name': 'get_peano_curve', 'steps': 0, 'poss': [(0, 0), (0, 4)], 'moves': [1, 2, 3]}, {'name': 'get_neptunus_curve', 'steps': 0, 'poss': [(0, 3)], 'moves': [1, 8]}, {'name': 'get_tokarev_curve', 'steps': 1, 'poss': [(0, 0), (0, 6)]}, {'name': 'get_spring_curve', 'steps': 0, 'poss': [(1, 2), (0, 7)]}, {'name': 'get_ARW_Curve', 'steps': 1, 'poss': [(0, 1), (2, 0)], 'moves': [4]}, {'name': 'get_bauman_curve', 'steps': 1, 'poss': [(0, 3), (0, 8)]}],
     'thorough': [{'name': 'get_hilbert_curve', 'steps': 2}, {'name': 'get_peano_curve', 'steps': 1}, {'name': 'get_beta_omega_curve', 'steps': 2}, {'name': 'get_ARW_Curve', 'steps': 1}, {'name': 'get_tokarev_curve', 'steps': 1}, {'name': 'get_neptunus_curve', 'steps': 1}]},
    {'name': 'enum', 'fn': h_enum, 'quick': [{'name': 'get_hilbert_curve', 'fixed': []}, {'name': 'get_hilbert_curve', 'fixed': [(0, 1, 1)]}, {'name': 'get_peano_curve', 'fixed': [(0, c, c % 2) for c in (0, 1, 2, 4, 7, 8)]}, {'name': 'get_beta_omega_curve', 'fixed': []}, {'name': 'get_hilbert_curve', 'fixed': [(0, 3, 0)], 'move': 1}, {'name': 'get_hilbert_curve', 'fixed': [], 'move': 2}, {'name': 'get_beta_omega_curve', 'fixed': [(1, 0, 0)], 'move': 3}, {'name': 'get_tokarev_curve', 'fixed': [(0, 3, 0), (0, 4, 1)]}, {'name': 'get_neptunus_curve', 'fixed': [(0, c, 0) for c in range(7)] + [(1, c, 0) for c in range(2, 8)]}, {'name': 'get_ARW_Curve', 'fixed': [(p, c, 0) for p in range(4) for c in range(4) if (p, c) not in ((0, 1), (2, 3), (3, 0))], 'move': 3}],
     'thorough': [{'name': 'get_peano_curve', 'fixed': [(0, c, c % 2) for c in (0, 1, 2, 7, 8)]}, {'name': 'get_tokarev_curve', 'fixed': [(0, 3, 0)]}, {'name': 'get_neptunus_curve', 'fixed': [(0, c, 0) for c in range(5)]}]},
]
