"""C14: path generation yields exactly the continuous gated paths, once each, and one per symmetry class when standardized."""
import itertools
from symx.api import *
from harness.common import *

FUNCTIONS = ['peano.paths.PathsGenerator.__init__/_init_entr2links/_init_exit2next/generate_paths/generate_paths_generic/get_paths_example/_get_restrictions',
             'peano._cube_path_trees.CubePathTree.grow', 'peano.subsets.Point.gen_neighbours/divide/std/__rmul__', 'peano.subsets.FacetDivSubset.gen_neighbours/divide/intersects/__rmul__/std',
             'peano.subsets.Link.intersects/__invert__/__eq__/__hash__', 'peano.utils.combinations_product']
BOUNDS = ('symbolic gates: both ends arbitrary points of the grid k/D: dim 1 (div 2..4, D 6), dim 2 div 2 (D 2), dim 2 div 3 (D 1); fixed gate sets (one to three point gates, equal gates among them, facet gates with nesting 0..2): dim 2 div 2..4, dim 3 div 2; '
          'cube-distance limits 1..3, width limits; the candidate path (cube and gate of every fraction) is a solver variable; calls interleaved on one generator')
OUTSIDE = 'larger grids, dim >= 4; gates off these grids; multiplicity of facet-gated paths'
ASSUMPTIONS = ['quicktions.Fraction is exact rational arithmetic', 'two facet pieces meet when they overlap in dimension dim-1 (C05)']


# ------------------------------------------------------------ symbolic gates

def ref_fill(dim, div, cubes):
    return AND([OR([EQ(c, q) for c in cubes]) for q in itertools.product(range(div), repeat=dim)])


def valid_points(dim, div, E, X, cubes, ens, exs, cdist, gates):
    G = div**dim
    cs = [EQ(tuple((c + e) for c, e in zip(cubes[0], ens[0])), tuple(div * e for e in E)),
          EQ(tuple((c + e) for c, e in zip(cubes[-1], exs[-1])), tuple(div * e for e in X)), ref_fill(dim, div, cubes)]
    for i in range(G):
        alts = []
        for ge, gx in gates:
            for k in all_maps(dim, False):
                a, b = ref_x(k, ge), ref_x(k, gx)
                alts += [EQ((a, b), (ens[i], exs[i])), EQ((b, a), (ens[i], exs[i]))]
        cs.append(OR(alts))
        if i + 1 < G:
            cs.append(EQ(tuple(c + e for c, e in zip(cubes[i], exs[i])), tuple(c + e for c, e in zip(cubes[i + 1], ens[i + 1]))))
            if cdist is not None:
                tot = 0
                for a, b in zip(cubes[i], cubes[i + 1]):
                    tot = tot + ITE(a >= b, a - b, b - a)
                cs.append(tot <= cdist)
    return AND(cs)


def h_points(ctx, dim, div, D, cdist=None, std=False):
    from peano.paths import PathsGenerator
    from peano.subsets import Link, Point
    G = div**dim
    E = tuple(ctx.frac('E%d' % j, 0, 1, D=D) for j in range(dim))
    X = tuple(ctx.frac('X%d' % j, 0, 1, D=D) for j in range(dim))
    gen = PathsGenerator(dim, div, [Link(Point(E), Point(X))], max_cdist=cdist)
    tuples = list(gen.generate_paths(std=std))
    ctx.check(all(len(t) == 1 for t in tuples), 'one path per gate')
    paths = [t[0] for t in tuples]
    rows = []
    for p in paths:
        row = ([tuple(c) for c in p.proto], [tuple(l.entrance) for l in p.links], [tuple(l.exit) for l in p.links])
        ctx.check(len(row[0]) == G and len(row[1]) == G, 'length')
        ctx.check(valid_points(dim, div, E, X, *row, cdist, [(E, X)]), 'generated path is valid')
        ctx.check(EQ((tuple(p.link.entrance), tuple(p.link.exit)), (E, X)), 'global gates of the path')
        rows.append(row)
    same = lambda a, b: AND([EQ(a[i], b[i]) for i in range(3)])
    ctx.check(AND([NOT(same(a, b)) for a, b in itertools.combinations(rows, 2)]), 'no path twice')
    if std:
        images = []
        for r in rows:
            mine = []
            for k in all_maps(dim):
                keep = EQ((ref_x(k, E), ref_x(k, X)), (X, E) if k[1] else (E, X))
                im = tuple([ref_cube(k, div, q) if i == 0 else ref_x(k, q) for q in r[i]] for i in range(3))
                if k[1]:
                    im = tuple(list(reversed(x)) for x in (im[0], im[2], im[1]))
                mine.append((keep, im))
            images.append(mine)
        for a in range(len(rows)):
            for b in range(a):
                ctx.check(AND([NOT(AND([keep, same(im, rows[b])])) for keep, im in images[a]]), 'standard paths are not symmetric to each other')
    else:
        images = [[(True, r)] for r in rows]
    cubes = [tuple(ctx.int('c%d_%d' % (i, j), 0, div - 1) for j in range(dim)) for i in range(G)]
    ens = [tuple(ctx.frac('e%d_%d' % (i, j), 0, 1, D=D) for j in range(dim)) for i in range(G)]
    exs = [tuple(ctx.frac('x%d_%d' % (i, j), 0, 1, D=D) for j in range(dim)) for i in range(G)]
    ctx.check(IMP(valid_points(dim, div, E, X, cubes, ens, exs, cdist, [(E, X)]), OR([AND([keep, same(im, (cubes, ens, exs))]) for mine in images for keep, im in mine])), 'every valid path is generated')
    ex = gen.get_paths_example()
    ctx.check((ex is None) == (not paths), 'an example is found exactly if there is a path')


# ------------------------------------------------------------ fixed gate sets

def parse_subset(dim, div, spec):
    """Point as list of strings, facet as {'f': (coord, value), 'c': cubes}."""
    from peano.subsets import FacetDivSubset, Point
    if isinstance(spec, dict):
        return FacetDivSubset(dim, div, tuple(spec['f']), [tuple(c) for c in spec['c']])
    return Point(tuple(Fraction(x) for x in spec))


def box(s, div):
    """Closed box of the subset, per coordinate."""
    if isinstance(s, tuple):
        return tuple((x, x) for x in s)
    fc, fv = s.facet
    side, acc = 1, [0] * (s.dim - 1)
    for c in s.cubes:
        side *= div
        acc = [a * div + cj for a, cj in zip(acc, c)]
    r = [(Fraction(a, side), Fraction(a + 1, side)) for a in acc]
    return tuple(r[:fc]) + ((Fraction(fv), Fraction(fv)),) + tuple(r[fc:])


def meets(a, b):
    """Boxes overlap in their own dimension."""
    return all((al == ah) == (bl == bh) and (al == bl if al == ah else max(al, bl) < min(ah, bh)) for (al, ah), (bl, bh) in zip(a, b))


def bmap(k, b):
    return tuple((1 - b[i][1], 1 - b[i][0]) if f else b[i] for i, f in k[0])


def moved(b, c, div=1):
    return tuple(((l + x) / div, (h + x) / div) for (l, h), x in zip(b, c))


_cache = {}


def run_real(dim, div, gates, glob, cdist, std, kw, parents):
    """Run the real generator once per process (no symbolic inputs here)."""
    key = repr((dim, div, gates, glob, cdist, std, kw, parents))
    if key not in _cache:
        from peano.paths import PathsGenerator
        from peano.subsets import Link
        mk = lambda g: Link(parse_subset(dim, div, g[0]), parse_subset(dim, div, g[1]))
        links = [mk(g) for g in gates]
        gen = PathsGenerator(dim, div, links, max_cdist=cdist)
        kw = dict(kw)
        if parents is not None:
            coarse = PathsGenerator(dim, div, [mk(g) for g in parents['gates']], max_cdist=cdist)
            pl = [t[0] for t in coarse.generate_paths(links=[mk(parents['gates'][0])])]
            par = tuple(pl[i % len(pl)] for i in parents['pick'])
            kw['parents'] = par
        elif glob is not None:
            kw['links'] = [mk(g) for g in glob]
        # one generator serves many calls: other limits, other restrictions and the other standardization in between must not matter
        other = PathsGenerator(dim, div, links, max_cdist=1 if cdist is None else None)
        next(iter(other.generate_paths(std=True, links=links[:1])), None)
        ex0 = gen.get_paths_example(**kw)
        it = iter(gen.generate_paths(std=std, **kw))
        out = list(itertools.islice(it, 1))
        for link in (links[-1], ~links[0]):
            next(iter(gen.generate_paths(links=[link], std=not std, start_max_count=2)), None)
        first = next(iter(gen.generate_paths(std=not std, **kw)), None)
        next(iter(other.generate_paths(**kw)), None)
        out += it
        ex = gen.get_paths_example(**kw)
        again = next(iter(gen.generate_paths(std=std, **kw)), None)
        agree = bool(out) == (first is not None) == (again is not None) == (ex0 is not None)
        _cache[key] = (links, kw.get('parents') or kw.get('links') or links, out, [ex0, ex], agree)
    return _cache[key]


def row_of(p, div):
    return tuple((tuple(c), box(l.entrance, div), box(l.exit, div)) for c, l in zip(p.proto, p.links))


def row_img(k, r, div):
    im = [(ref_cube(k, div, c), bmap(k, b), bmap(k, a)) if k[1] else (ref_cube(k, div, c), bmap(k, a), bmap(k, b)) for c, a, b in r]
    return tuple(reversed(im)) if k[1] else tuple(im)


def h_fixed(ctx, dim, div, gates, glob=None, cdist=None, std=False, kw={}, parents=None, only=None):
    links, restr, out, exs, agree = run_real(dim, div, gates, glob, cdist, std, kw, parents)
    ctx.check(agree, 'calls on one generator agree on whether there is a path')
    pointed = all(isinstance(l.entrance, tuple) and isinstance(l.exit, tuple) for l in links)
    G = div**dim
    n = len(restr)
    # oriented gates a fraction may have
    L = {}
    for l in links:
        for k in all_maps(dim, False):
            a, b = bmap(k, box(l.entrance, div)), bmap(k, box(l.exit, div))
            L[a, b] = L[b, a] = 1
    L = list(L)
    cubes = list(itertools.product(range(div), repeat=dim))
    inside = set(cubes)
    deltas = [d for d in itertools.product((-1, 0, 1), repeat=dim) if any(d) and (cdist is None or sum(map(abs, d)) <= cdist)]
    step = {}
    for a, (_, x) in enumerate(L):
        step[a] = [(d, b) for b, (e, _) in enumerate(L) for d in deltas if meets(x, moved(e, d))]
    isparent = parents is not None

    def first(r, c, l):
        if isparent:
            return c == tuple(restr[r].proto[0])
        return meets(box(restr[r].entrance, div), moved(l[0], c, div))

    def last(r, c, l):
        if isparent:
            return c == tuple(restr[r].proto[-1])
        return meets(box(restr[r].exit, div), moved(l[1], c, div))

    def fits(r, i, c, l):
        if not isparent:
            return True
        q = restr[r].links[i]
        return c == tuple(restr[r].proto[i]) and meets(l[0], box(q.entrance, div)) and meets(l[1], box(q.exit, div))

    def valid(r, row):
        if len(row) != G or {c for c, _, _ in row} != inside:
            return False
        if not all((a, b) in L for _, a, b in row):
            return False
        if not (first(r, row[0][0], row[0][1:]) and last(r, row[-1][0], row[-1][1:])):
            return False
        if not all(fits(r, i, c, (a, b)) for i, (c, a, b) in enumerate(row)):
            return False
        for (c, _, x), (c2, e, _) in zip(row, row[1:]):
            d = tuple(q - p for p, q in zip(c, c2))
            if d not in deltas or not meets(x, moved(e, d)):
                return False
        return True

    ctx.check(all(len(t) == n for t in out), 'one path per restriction')
    listed = [[] for _ in range(n)]
    seen = set()
    for t in out:
        rows = tuple(row_of(p, div) for p in t)
        if pointed:
            ctx.check(rows not in seen, 'no paths tuple twice')
        seen.add(rows)
        for r in range(n):
            listed[r].append(rows[r])
    listed = [list(dict.fromkeys(rs)) for rs in listed]
    for r in range(n):
        ctx.check(all(valid(r, row) for row in listed[r]), 'generated path is valid')
    if isparent:
        keyr = [row_of(p, div) for p in restr]
    else:
        keyr = [(box(l.entrance, div), box(l.exit, div)) for l in restr]
    if std:
        stab = []
        for r in range(n):
            if isparent:
                stab.append([k for k in all_maps(dim) if row_img(k, keyr[r], div) == keyr[r]])
            else:
                a, b = keyr[r]
                stab.append([k for k in all_maps(dim) if (bmap(k, a), bmap(k, b)) == ((b, a) if k[1] else (a, b))])
        covered = []
        for r in range(n):
            groups = {}
            for row in listed[r]:
                cls = frozenset(row_img(k, row, div) for k in stab[r])
                groups.setdefault(cls, []).append(row)
            ctx.check(all(len(g) == 1 for g in groups.values()), 'standard paths are not symmetric to each other')
            covered.append([row for g in groups for row in g])
        # equivalent restrictions: unordered choice
        pos = {}
        for r in range(n):
            pos.setdefault(keyr[r], []).append(r)
        total = 1
        for rs in pos.values():
            m = len(listed[rs[0]])
            num = 1
            for i in range(len(rs)):
                num = num * (m + i) // (i + 1)
            total *= num
        multi = {tuple(tuple(sorted(rows[r] for r in rs)) for rs in pos.values()) for rows in seen}
        ctx.check(len(multi) == total, 'every combination of standard paths')
        if pointed:
            ctx.check(len(out) == total, 'one tuple per combination')
    else:
        covered = listed
        total = 1
        for r in range(n):
            total *= len(listed[r])
        ctx.check(len(seen) == total, 'every combination of paths')
    empty = not out
    for ex in exs:
        ctx.check((ex is None) == empty, 'an example is found exactly if there is one')
        if ex is not None:
            ctx.check(all(valid(r, row_of(p, div)) for r, p in enumerate(ex)), 'the example is valid')
    # completeness by the solver: node i of the candidate path is one of the (cube, gate) pairs
    missing = [complete(ctx, r, G, L, cubes, inside, step, first, last, fits, covered[r], 'n%d' % r) for r in range(n) if keyr.index(keyr[r]) == r]
    if empty:
        # nothing generated: not every restriction has a path
        ctx.check(NOT(AND(missing)), 'every valid combination is generated')
    else:
        for m in missing:
            ctx.check(NOT(m), 'every valid path is generated')


def complete(ctx, r, G, L, cubes, inside, step, first, last, fits, covered, name):
    """Condition: there is a valid path that is not covered."""
    # keep only nodes that can occur at position i (reachable from both ends), then one-hot variables
    nodes = [[(c, a) for c in cubes for a in range(len(L)) if fits(r, i, c, L[a])] for i in range(G)]
    nodes[0] = [q for q in nodes[0] if first(r, q[0], L[q[1]])]
    nodes[-1] = [q for q in nodes[-1] if last(r, q[0], L[q[1]])]
    succ = {}

    def after(q):
        if q not in succ:
            succ[q] = [(t, b) for d, b in step[q[1]] for t in [tuple(x + y for x, y in zip(q[0], d))] if t in inside]
        return succ[q]
    for i in range(G - 1):
        ok = {t for q in nodes[i] for t in after(q)}
        nodes[i + 1] = [q for q in nodes[i + 1] if q in ok]
    for i in range(G - 2, -1, -1):
        nxt = set(nodes[i + 1])
        nodes[i] = [q for q in nodes[i] if any(t in nxt for t in after(q))]
    if any(not ns for ns in nodes):
        return bool(covered)
    x = [{q: ctx.bool('%s.%d.%s.%d' % (name, i, ''.join(map(str, q[0])), q[1])) for q in ns} for i, ns in enumerate(nodes)]
    cs = []
    for i in range(G):
        cs.append(OR(list(x[i].values())))
    for c in cubes:
        occ = [AND([NOT(x[i][q]) for q in nodes[i] if q[0] == c]) for i in range(G)]
        # visited exactly once: at most one position has this cube
        for i in range(G):
            for j in range(i):
                cs.append(OR([occ[i], occ[j]]))
    for i in range(G - 1):
        nxt = x[i + 1]
        for q in nodes[i]:
            cs.append(OR([NOT(x[i][q])] + [nxt[t] for t in after(q) if t in nxt]))
    index = {l: a for a, l in enumerate(L)}
    for row in covered:
        cs.append(NOT(AND([x[i].get((c, index[a, b]), False) for i, (c, a, b) in enumerate(row)])))
    # one gate per position: a set of true nodes at one position still contains a valid chain (every true node has a true successor),
    # so make it functional
    for i in range(G):
        by = {}
        for q in nodes[i]:
            by.setdefault(q[0], []).append(q)
        for c, qs in by.items():
            for u, v in itertools.combinations(qs, 2):
                cs.append(OR([NOT(x[i][u]), NOT(x[i][v])]))
        full = list(by)
        for c1, c2 in itertools.combinations(full, 2):
            a1 = OR([x[i][q] for q in by[c1]])
            a2 = OR([x[i][q] for q in by[c2]])
            cs.append(OR([NOT(a1), NOT(a2)]))
    return AND(cs)


def gates(text):
    return [[q.strip('()').split(',') for q in g.split('->')] for g in text.split('|')]


def F(c, v, *cubes):
    return {'f': (c, v), 'c': list(cubes)}


def x(dim, div, text, **k):
    return dict(dim=dim, div=div, gates=gates(text) if isinstance(text, str) else text, **k)


FIX = [x(2, 2, '(0,0)->(0,1)'), x(2, 2, '(0,0)->(1,1)', std=True), x(2, 2, '(0,0)->(0,1)|(0,0)->(1,1)'), x(2, 2, '(0,0)->(0,1)|(0,0)->(1,1)', std=True), x(2, 2, '(0,0)->(0,1)|(0,0)->(0,1)|(0,0)->(1,1)', std=True),
       x(2, 2, '(0,0)->(0,1)|(0,0)->(1,1)', cdist=1, std=True), x(2, 2, '(0,0)->(0,1)', glob=gates('(0,0)->(1,1)|(1,0)->(0,0)')), x(2, 2, '(0,1/3)->(1,1/3)|(0,1/3)->(1/3,0)|(0,1/3)->(2/3,0)'),
       x(2, 3, '(0,0)->(0,1)'), x(2, 3, '(0,0)->(0,1)', std=True), x(2, 3, '(0,0)->(1,1)', std=True, kw={'start_max_count': 1}), x(2, 3, '(0,0)->(1,1)', cdist=1), x(2, 3, '(0,0)->(1,1/2)'), x(2, 3, '(0,0)->(1,1/2)', std=True, cdist=1), x(2, 3, '(0,1/2)->(1,1/2)'),
       x(2, 3, '(0,0)->(0,1)|(0,0)->(1,1)', kw={'start_max_count': 5, 'finish_max_count': 3}, glob=gates('(0,0)->(0,1)')), x(2, 3, '(0,0)->(0,1)|(0,0)->(1,1)', std=True, glob=gates('(1,1)->(0,0)')), x(3, 2, '(0,0,0)->(1,1/2,1/2)', std=True), x(2, 3, '(0,0)->(1,1/3)|(0,0)->(1,2/3)'), x(2, 2, '(0,0)->(1/2,1)|(0,0)->(1,1)'), x(2, 4, '(0,0)->(0,1)', kw={'start_max_count': 1}), x(2, 4, '(0,0)->(0,1)', std=True, cdist=1),
       x(3, 2, '(0,0,0)->(1/2,1/2,1)'), x(3, 2, '(0,0,0)->(1,0,0)', std=True), x(3, 2, '(1/3,0,0)->(1,1/3,1)'), x(3, 2, '(1/3,0,0)->(1,1/3,1)', std=True), x(3, 2, '(0,1/3,1/3)->(2/3,1/3,0)', std=True), x(3, 2, '(0,0,0)->(1,0,0)', cdist=2), x(3, 2, '(0,0,0)->(0,1,1)', std=True, cdist=2), x(3, 2, '(0,0,0)->(1,1,1)', cdist=1),
       x(1, 4, '(0)->(1)'), x(1, 3, '(1/2)->(1)'),
       x(2, 2, [[F(0, 0), F(1, 0)], [F(0, 0), F(0, 1)]]), x(2, 2, [[F(0, 0), F(1, 0)], [F(0, 0), F(0, 1)]], std=True), x(2, 3, [[F(0, 0), F(1, 0)], [F(0, 0), F(0, 1)]]), x(2, 3, [[F(0, 0), F(0, 1)], [F(0, 0), F(1, 0)]], std=True), x(2, 3, [[F(0, 0), F(0, 1)], [F(0, 0), F(1, 0)]], cdist=1, glob=[[F(0, 0), F(0, 1)]]),
       x(2, 2, [[F(0, 0, (0,)), F(1, 0, (1,))], [F(0, 0, (0,)), F(0, 1, (0,))]]), x(2, 2, [[F(0, 0, (0,)), F(1, 0)], [F(0, 0, (0,)), F(0, 1)]], glob=[[F(0, 0, (0,)), F(1, 0)]]), x(2, 2, [[F(0, 0, (0,)), F(1, 0)], [F(0, 0, (0,)), F(0, 1)]], glob=[[F(0, 0, (0,)), F(0, 1)]], std=True),
       x(2, 3, [[F(0, 0, (0,)), F(1, 0, (2,))], [F(0, 0, (0,)), F(0, 1, (2,))]], std=True), x(2, 3, [[F(0, 0, (2,)), F(1, 0, (2,))], [F(0, 0, (0,)), F(0, 1, (2,))]]), x(2, 2, [[F(0, 0, (0,), (0,)), F(0, 1, (0,), (0,))], [F(0, 0, (0,), (0,)), F(1, 0, (1,), (1,))]]), x(2, 2, [[F(0, 0, (0,), (1,)), F(1, 0, (1,), (1,))]]),
       x(3, 2, [[F(0, 0), F(1, 0)]]), x(3, 2, [[F(0, 0), F(1, 0)], [F(0, 0), F(0, 1)]], glob=[[F(0, 0), F(0, 1)]]), x(3, 2, [[F(0, 0), F(1, 0)]], std=True),
       x(2, 2, [[F(0, 0, (0,)), F(1, 0, (1,))], [F(0, 0, (0,)), F(0, 1, (1,))], [F(0, 0, (0,)), F(0, 1, (0,))], [F(0, 0, (0,)), F(1, 0, (0,))]], parents={'gates': [[F(0, 0), F(1, 0)], [F(0, 0), F(0, 1)]], 'pick': [0, 3]}),
       x(2, 2, [[F(0, 0, (0,)), F(1, 0, (1,))], [F(0, 0, (0,)), F(0, 1, (0,))]], parents={'gates': [[F(0, 0), F(1, 0)], [F(0, 0), F(0, 1)]], 'pick': [0, 0, 1]}, std=True),
       x(2, 2, [[F(0, 0, (0,), (0,)), F(0, 1, (0,), (0,))], [F(0, 0, (0,), (0,)), F(1, 0, (1,), (1,))]], parents={'gates': [[F(0, 0, (0,)), F(0, 1, (0,))], [F(0, 0, (0,)), F(1, 0, (1,))]], 'pick': [1, 0]}),
       x(2, 3, [[F(0, 0, (0,)), F(1, 0, (2,))], [F(0, 0, (0,)), F(0, 1, (2,))]], parents={'gates': [[F(0, 0), F(0, 1)], [F(0, 0), F(1, 0)]], 'pick': [1, 4]}, std=True),
       x(2, 3, [[F(0, 0, (0,)), F(0, 1, (2,))], [F(0, 0, (0,)), F(0, 1, (0,))], [F(0, 0, (0,)), F(1, 0, (2,))]], parents={'gates': [[F(0, 0), F(0, 1)], [F(0, 0), F(1, 0)]], 'pick': [2]}),
       x(2, 3, [[F(0, 0, (0,)), F(0, 1, (2,))], [F(0, 0, (0,)), F(0, 1, (0,))], [F(0, 0, (0,)), F(1, 0, (2,))]], parents={'gates': [[F(0, 0), F(0, 1)], [F(0, 0), F(1, 0)]], 'pick': [0]}, std=True)]
FIX += [x(2, 3, '(0,0)->(0,1)|(0,0)->(0,1)'), x(2, 3, '(0,0)->(1,1)|(0,0)->(1,1)|(0,0)->(1,1)'),
        x(2, 2, '(0,0)->(0,1)|(0,0)->(1,1)', glob=gates('(0,0)->(1,1)|(0,0)->(1,1)|(0,0)->(0,1)|(0,0)->(0,1)')), x(2, 2, '(0,0)->(0,1)|(0,0)->(1,1)', glob=gates('(0,0)->(1,1)|(0,0)->(1,1)|(0,0)->(0,1)|(0,0)->(0,1)'), std=True)]
MIX = [[F(0, 0, (0,)), F(1, 0)], [F(0, 0, (0,)), F(0, 1)]]
MIX2 = [[F(0, 0), F(1, 0, (1,))], [F(0, 0), F(0, 1, (0,))]]
N1 = [[F(0, 0, (0,)), F(1, 0, (1,))], [F(0, 0, (0,)), F(0, 1, (1,))], [F(0, 0, (0,)), F(0, 1, (0,))], [F(0, 0, (0,)), F(1, 0, (0,))], [F(0, 0, (1,)), F(1, 0, (1,))]]
T1 = [[F(0, 0, (0,)), F(1, 0, (2,))], [F(0, 0, (0,)), F(0, 1, (2,))]]
T2 = T1 + [[F(0, 0, (0,)), F(0, 1, (0,))], [F(0, 0, (2,)), F(1, 0, (2,))], [F(0, 0, (1,)), F(0, 1, (0,))], [F(0, 0, (1,)), F(1, 0, (2,))]]
FIX += [x(2, 2, N1, parents={'gates': MIX, 'pick': [i, i + 7]}) for i in range(0, 7)] + [x(2, 2, N1, parents={'gates': MIX2, 'pick': [i]}, std=True) for i in range(0, 12, 3)] + [x(2, 2, MIX, parents={'gates': MIX2, 'pick': [i]}, std=True) for i in (0, 5)]
FIX += [x(2, 3, T2, parents={'gates': T1, 'pick': [i]}) for i in (0, 1, 2, 3)] + [x(2, 3, T2, parents={'gates': T1[::-1], 'pick': [i]}, std=True) for i in (0, 3)]
FIXT = [x(2, 4, '(0,0)->(1,1/2)', kw={'start_max_count': 1}), x(2, 4, '(0,0)->(0,1)'), x(2, 4, '(0,0)->(0,1)', std=True), x(3, 2, '(0,0,0)->(0,1,1)', std=True), x(3, 2, '(0,0,0)->(1,1/2,1/2)'), x(3, 2, '(0,0,0)->(1,0,0)', kw={'start_max_count': 7}), x(3, 2, '(0,0,0)->(0,1,1)|(0,0,0)->(1,0,0)', cdist=1),
        x(2, 4, [[F(0, 0, (0,)), F(0, 1, (3,))]]), x(2, 3, [[F(0, 0, (0,), (1,)), F(0, 1, (2,), (1,))]]), x(3, 2, [[F(0, 0), F(1, 1)]], cdist=1), x(2, 5, '(0,0)->(1,1)', cdist=1)]


HARNESSES = [
    {'name': 'points', 'fn': h_points, 'quick': [{'dim': 1, 'div': 2, 'D': 6}, {'dim': 1, 'div': 3, 'D': 6}, {'dim': 1, 'div': 4, 'D': 6, 'std': True}, {'dim': 2, 'div': 2, 'D': 2}, {'dim': 2, 'div': 2, 'D': 2, 'std': True}, {'dim': 2, 'div': 2, 'D': 2, 'cdist': 1}],
     'thorough': [{'dim': 2, 'div': 2, 'D': 3}, {'dim': 2, 'div': 2, 'D': 3, 'std': True}, {'dim': 2, 'div': 2, 'D': 6}, {'dim': 2, 'div': 3, 'D': 1}, {'dim': 2, 'div': 3, 'D': 1, 'std': True}]},
    {'name': 'fixed', 'fn': h_fixed, 'quick': FIX, 'thorough': FIX + FIXT},
]
