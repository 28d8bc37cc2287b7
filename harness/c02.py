"""C02: text notation round-trips and means what the documentation says."""
import itertools
from symx.api import *
from harness.common import snake, some_maps, ref_cube, ref_vec

FUNCTIONS = ['peano.base_maps.BaseMap.parse/__str__', 'peano.base_maps.Spec.parse/__str__', 'peano.paths.Proto.parse/__str__',
             'peano.curves.Pattern.parse/__str__', 'peano.curves.Curve.parse', 'peano.subsets.Point.parse/__str__',
             'peano.subsets.Link.parse_gates/__str__']
BOUNDS = ('base maps of dim 1..4 (thorough 5), every vector; pattern numbers 0..9; prototypes: every order of the cubes of dim 2 div 2, '
          'every facet-adjacent order of dim 3 div 2 (thorough: steps to edge-adjacent cubes too), king-move orders of dim 2 div 3 (thorough), '
          'dim 1 div 2..4; images of fixed orders under isometries up to dim 6, div 11; points with coordinates k/D, |k|<=2D, D=6 (dim 1) and 2 (dim 2); ')
OUTSIDE = 'pattern numbers above 9 (the notation has one digit); partial prototypes (with undefined cubes); dims above 6 (no letters)'
ASSUMPTIONS = ['quicktions parses its own decimal/rational literals correctly']
LET = 'ijklmn'


def h_base_map(ctx, dim):
    """k-th letter names the image of the k-th basis vector, upper case negated, ~ is time reversal."""
    from peano.base_maps import BaseMap
    a = ctx.base_map('a', dim)
    text = str(a)
    v = tuple(ctx.frac('v%d' % j) for j in range(dim))
    t = ctx.frac('t')
    body = text[:-1] if text.endswith('~') else text
    ctx.check(len(body) == dim, 'one letter per basis vector')
    img = [0] * dim
    for k, l in enumerate(body):
        i = LET.index(l.lower())
        img[i] = img[i] + (v[k] if l.islower() else -v[k])
    for tx in (text, ' ' + text + ' \n'):
        b = BaseMap.parse(tx)
        ctx.check(EQ(b.apply_vec(v), tuple(img)), 'parsed map sends basis vectors where the text says')
        ctx.check(EQ(b.apply_t(t), 1 - t if '~' in text else t), 'parsed time reversal')
        ctx.check(b == a, 'parse(str(a)) = a')
    ctx.check(EQ(a.apply_vec(v), tuple(img)), 'text of a map describes the map')
    ctx.check(('~' in text) == a.time_rev, 'text shows time reversal')


def h_base_map_text(ctx, dim):
    """Same, starting from arbitrary text."""
    from peano.base_maps import BaseMap
    perm = ctx.choose('perm', list(itertools.permutations(range(dim))))
    flips = [ctx.bool('f%d' % k) for k in range(dim)]
    rev = ctx.bool('rev')
    text = ''.join(LET[i].upper() if f else LET[i] for i, f in zip(perm, flips)) + ('~' if rev else '')
    v = tuple(ctx.frac('v%d' % j) for j in range(dim))
    img = [None] * dim
    for k in range(dim):
        img[perm[k]] = ITE(flips[k], -v[k], v[k])
    b = BaseMap.parse(text)
    ctx.check(EQ(b.apply_vec(v), tuple(img)), 'parsed map sends basis vectors where the text says')
    ctx.check(str(b) == text, 'str(parse(text)) = text')


def h_spec(ctx, dim):
    from peano.base_maps import Spec, BaseMap
    a = ctx.base_map('a', dim)
    p = ctx.int('p', 0, 9)
    s = Spec(a, p)
    text = str(s)
    for tx in (text, '%d%s' % (p, str(a))):
        u = Spec.parse(tx)
        ctx.check(u.base_map == a, 'spec text: map')
        ctx.check(EQ(u.pnum, p), 'spec text: pattern number')
        ctx.check(u == s, 'spec text: equality')
    u = Spec.parse(str(a))
    ctx.check(u.base_map == a and EQ(u.pnum, 0), 'no number means pattern 0')


def _cubes(ctx, dim, div, king, zero=False):
    G = div**dim
    cubes = [tuple(ctx.int('c%d.%d' % (i, j), 0, div - 1) for j in range(dim)) for i in range(G)]
    for a, b in itertools.combinations(cubes, 2):
        ctx.assume(NOT(EQ(a, b)))
    if zero:
        ctx.assume(EQ(cubes[0], (0,) * dim))
    for a, b in zip(cubes, cubes[1:]):
        if king and div > 2:
            ctx.assume(AND([AND([x - y <= 1, y - x <= 1]) for x, y in zip(a, b)]))
        if king in (1, 2):
            ctx.assume(sum(abs(x - y) for x, y in zip(a, b)) <= king)
    return cubes


def _chain(cubes):
    out = []
    for a, b in zip(cubes, cubes[1:]):
        grp = ''.join(LET[j] if y > x else LET[j].upper() for j, (x, y) in enumerate(zip(a, b)) if y != x)
        out.append(grp if len(grp) == 1 else '(%s)' % grp)
    return ''.join(out)


def h_proto(ctx, dim, div, king=9, zero=False):
    """Chain code <-> sequence of cubes, for every symbolic sequence covering the grid."""
    from peano.paths import Proto
    cubes = _cubes(ctx, dim, div, king, zero)
    p = Proto(dim, div, cubes)
    text = str(p)
    ctx.check(text == _chain(cubes), 'chain code lists the steps')
    q = Proto.parse(text)
    ctx.check(q.dim == dim and q.div == div, 'dim and div recovered')
    ctx.check(EQ(tuple(q), tuple(cubes)), 'parse(str(p)) = p')


def h_proto_wide(ctx, dim, div, few=None, order='snake'):
    """Larger grids: images of a fixed order under every isometry, groups written in any order of letters."""
    from peano.paths import Proto
    k = some_maps(ctx, 'k', dim, few)
    base = snake(dim, div)
    if order == 'lex':                    # steps along many axes at once (div 2)
        base = list(itertools.product(range(div), repeat=dim))
    elif order == 'zigzag':               # two columns at a time, diagonal steps
        base = []
        for x in range(0, div - 1, 2):
            ys = range(div) if x % 4 == 0 else range(div - 1, -1, -1)
            base += [(x + i, y) for n, y in enumerate(ys) for i in (0, 1)]
        if div % 2:
            last = base[-1][1]
            base += [(div - 1, y) for y in (range(div) if last == 0 else range(div - 1, -1, -1))]
    cubes = [ref_cube(k, div, c) for c in (reversed(base) if k[1] else base)]
    d = ctx.int('d', 0, div - 1)          # symbolic position of a query along the chain
    p = Proto(dim, div, cubes)
    text = str(p)
    ctx.check(text == _chain(cubes), 'chain code lists the steps')
    alt = text
    if '(' in text:
        alt = ''.join('(%s)' % g[1:-1][::-1] if g[0] == '(' else g for g in _groups(text))
    for tx in (text, alt):
        q = Proto.parse(tx)
        ctx.check(q.dim == dim and q.div == div and len(q) == len(cubes), 'dim and div recovered')
        ctx.check(tuple(q) == tuple(cubes), 'parse(str(p)) = p')
        ctx.check(OR([AND([EQ(d, c[0]), EQ(d, e[0])]) for c, e in zip(q, cubes)]), 'every layer is visited')


def _groups(text):
    out, i = [], 0
    while i < len(text):
        if text[i] == '(':
            j = text.index(')', i)
            out.append(text[i:j + 1])
            i = j + 1
        else:
            out.append(text[i])
            i += 1
    return out


def h_wide_map(ctx, dim, few):
    from peano.base_maps import BaseMap, Spec
    k = some_maps(ctx, 'k', dim, few)
    a = BaseMap(*k)
    v = tuple(ctx.frac('v%d' % j) for j in range(dim))
    text = str(a)
    ctx.check(len(text) == dim + (1 if k[1] else 0) and text.endswith('~') == k[1], 'length of the text')
    img = [0] * dim
    for i, l in enumerate(text[:dim]):
        j = LET.index(l.lower())
        img[j] = v[i] if l.islower() else -v[i]
    ctx.check(EQ(tuple(img), ref_vec(k, v)), 'text of a map describes the map')
    ctx.check(BaseMap.parse(text) == a, 'parse(str(a)) = a')
    p = ctx.int('p', 0, 9)
    s = Spec.parse('%d%s' % (p, text))
    ctx.check(AND([s.base_map == a, EQ(s.pnum, p)]), 'spec text')


def h_point(ctx, dim, D):
    from peano.subsets import Point, Link
    p = Point(ctx.frac('x%d' % j, -2, 2, D=D) for j in range(dim))
    text = str(p)
    for tx in (text, '  ' + text + ' '):
        q = Point.parse(tx)
        ctx.check(EQ(tuple(q), tuple(p)), 'point text')
        ctx.check(q == p, 'parsed point equals the point')


def h_gate(ctx, dim, D):
    from peano.subsets import Point, Link
    p = Point(ctx.frac('x%d' % j, 0, 1, D=D) for j in range(dim))
    q = Point(ctx.frac('y%d' % j, 0, 1, D=D) for j in range(dim))
    link = Link(p, q)
    for tx in (str(link), '%s->%s' % (p, q)):
        l2 = Link.parse_gates(tx)
        ctx.check(EQ(tuple(l2.entrance), tuple(p)), 'entrance')
        ctx.check(EQ(tuple(l2.exit), tuple(q)), 'exit')


def h_curve(ctx):
    """Pattern/Curve.parse assemble the prototype and specs in order, from csv or list."""
    from peano.curves import Pattern, Curve
    from peano.base_maps import BaseMap, Spec
    cubes = _cubes(ctx, 2, 2, 1)
    pos = ctx.choose('pos', [0, 1, 2, 3])
    bm = ctx.base_map('b', 2)
    pn = ctx.int('p', 0, 1)
    texts = ['ji', '1Ij~', 'JI', '0jI']
    texts[pos] = '%d%s' % (pn, str(bm))
    chain = _chain(cubes)
    want = [Spec.parse(t) for t in texts]
    as_list = ctx.choose('form', [False, True])
    pat = Pattern.parse(chain, list(texts) if as_list else ','.join(texts))
    ctx.check(EQ(tuple(pat.proto), tuple(cubes)), 'pattern prototype')
    ctx.check(list(pat.specs) == want, 'pattern specs in order')
    ctx.check(pat.specs[pos].base_map == bm and EQ(pat.specs[pos].pnum, pn), 'pattern spec value')
    ctx.check(str(pat) == '%s | %s' % (chain, ','.join(str(s) for s in want)), 'pattern text')
    c = Curve.parse([('jiJ', 'ji,ij,ij,JI'), (chain, list(texts) if as_list else ','.join(texts))])
    ctx.check(c.dim == 2 and c.div == 2 and c.mult == 2 and c.pnum == 0 and c.genus == 4, 'curve parameters')
    ctx.check(EQ(tuple(c.patterns[1].proto), tuple(cubes)) and list(c.patterns[1].specs) == want, 'curve pattern 1')
    ctx.check(EQ(tuple(c.patterns[0].proto), ((0, 0), (0, 1), (1, 1), (1, 0))), 'curve pattern 0')
    ctx.check(EQ(tuple(c.proto), tuple(c.patterns[0].proto)) and c.specs == c.patterns[0].specs, 'selected pattern')


_S = {'str_values': True}
HARNESSES = [
    {'name': 'base_map', 'fn': h_base_map, 'quick': [{'dim': d} for d in (1, 2, 3, 4)], 'thorough': [{'dim': d} for d in (1, 2, 3, 4, 5)]},
    {'name': 'base_map_text', 'fn': h_base_map_text, 'quick': [{'dim': d} for d in (1, 2, 3)], 'thorough': [{'dim': d} for d in (1, 2, 3, 4)]},
    {'name': 'spec', 'fn': h_spec, 'quick': [{'dim': d} for d in (1, 2)], 'thorough': [{'dim': d} for d in (1, 2, 3)], **_S},
    {'name': 'proto', 'fn': h_proto, 'quick': [{'dim': 1, 'div': 2}, {'dim': 1, 'div': 3}, {'dim': 1, 'div': 4}, {'dim': 2, 'div': 2}, {'dim': 3, 'div': 2, 'king': 1}],
     'thorough': [{'dim': 1, 'div': 2}, {'dim': 1, 'div': 4}, {'dim': 2, 'div': 2}, {'dim': 2, 'div': 3}, {'dim': 3, 'div': 2, 'king': 2, 'zero': True}, {'dim': 3, 'div': 2, 'king': 1}]},
    {'name': 'proto_wide', 'fn': h_proto_wide, 'quick': [{'dim': 1, 'div': 12}, {'dim': 2, 'div': 3}, {'dim': 2, 'div': 5}, {'dim': 2, 'div': 11}, {'dim': 2, 'div': 3, 'order': 'zigzag'}, {'dim': 2, 'div': 6, 'order': 'zigzag'},
                                                         {'dim': 3, 'div': 3}, {'dim': 3, 'div': 2, 'order': 'lex'}, {'dim': 4, 'div': 2, 'few': 60}, {'dim': 4, 'div': 2, 'order': 'lex', 'few': 60}, {'dim': 5, 'div': 2, 'few': 40}, {'dim': 6, 'div': 2, 'order': 'lex', 'few': 20}]},
    {'name': 'wide_map', 'fn': h_wide_map, 'quick': [{'dim': 5, 'few': 60}, {'dim': 6, 'few': 60}], 'thorough': [{'dim': 5, 'few': 600}, {'dim': 6, 'few': 600}], **_S},
    {'name': 'point', 'fn': h_point, 'quick': [{'dim': 1, 'D': 6}, {'dim': 2, 'D': 2}, {'dim': 3, 'D': 1}, {'dim': 1, 'D': 24}], 'thorough': [{'dim': 2, 'D': 4}, {'dim': 4, 'D': 1}], **_S},
    {'name': 'gate', 'fn': h_gate, 'quick': [{'dim': 2, 'D': 2}, {'dim': 1, 'D': 6}, {'dim': 3, 'D': 1}], 'thorough': [{'dim': 2, 'D': 4}, {'dim': 1, 'D': 12}, {'dim': 3, 'D': 2}], **_S},
    {'name': 'curve', 'fn': h_curve, 'quick': [{}], **_S},
]
