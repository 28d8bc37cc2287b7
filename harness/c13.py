"""C13: growing paths over a graph of (cube, state) nodes finds every path that fills the grid exactly once."""
import itertools
from symx.api import *

FUNCTIONS = ['peano._cube_path_trees.CubePathTree.grow/_width_search/_depth_search/_continue_path/_group_paths_by_future/_check_glue/_glue_paths',
             'peano._cube_path_trees._CubePath.future/future_hash/complement_future_hash/support/tail_support/flat']
BOUNDS = ('grids of 2..6 cubes (1 x n, 2 x 2; thorough also 1 x 7, 2 x 2 x 2, 3 x 3), 1..2 states per cube; presence of up to 12 directed edges symbolic (the rest a fixed table), '
          'membership of every node in the start and finish sets symbolic, start and finish width limits symbolic integers 0..5 or unlimited/absent, states whose hashes all collide; the same generator asked twice')
OUTSIDE = 'larger grids; more than 12 symbolic edges at once; rules that list the same step twice'
ASSUMPTIONS = ['prev_func is the inverse relation of next_func (as the callers guarantee)']


class Clash:
    """State whose hash says nothing."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Clash) and self.n == other.n

    def __hash__(self):
        return 7

    def __repr__(self):
        return 's%d' % self.n


def ham(nodes, edges, G):
    """All node sequences that visit each cube once along possible edges."""
    succ = {}
    for a, b in edges:
        succ.setdefault(a, []).append(b)

    def go(seq, seen):
        if len(seq) == G:
            yield tuple(seq)
            return
        for b in succ.get(seq[-1], ()):
            if b[0] not in seen:
                yield from go(seq + [b], seen | {b[0]})
    for a in nodes:
        yield from go([a], {a[0]})


def h_grow(ctx, dim, div, states, nsym, table, ends, limits, clash=False, prev=True, twice=False):
    """table: percentage of fixed edges that are present; ends: how many start/finish memberships are symbolic."""
    from peano._cube_path_trees import CubePathTree
    cubes = list(itertools.product(range(div), repeat=dim))
    G = len(cubes)
    st = [Clash(s) if clash else s for s in range(states)]
    nodes = [(c, s) for c in cubes for s in range(states)]
    pairs = [(a, b) for a in nodes for b in nodes if a[0] != b[0]]
    rank = sorted(range(len(pairs)), key=lambda i: (i * 7919 + 13 * table) % 10007)
    symi = set(rank[:nsym])
    cond = {}
    for j, i in enumerate(rank):
        if i in symi:
            cond[pairs[i]] = ctx.bool('e%d' % i)
        elif (i * 104729 + table * 31) % 100 < table:
            cond[pairs[i]] = True
    # a few rules that lead out of the grid or back to the same cube: must be ignored
    inside = set(cubes)
    out = {nodes[0]: [((div,) * dim, st[0]), ((0,) * dim, st[-1])], nodes[-1]: [((-div,) + (0,) * (dim - 1), st[0])], nodes[1]: [((0,) * (dim - 1) + (div,), st[0]), ((0,) * (dim - 1) + (-2,), st[-1])]}
    succ, pred = {}, {}
    for (a, b), c in cond.items():
        succ.setdefault(a, []).append((b, c))
        pred.setdefault(b, []).append((a, c))

    def num(s):
        return s.n if clash else s

    def rule(rel):
        def f(cube, state):
            a = (tuple(cube), num(state))
            yield from out.get(a, ())
            if a[0] not in inside:
                for b in nodes:
                    yield tuple(bj - aj for aj, bj in zip(a[0], b[0])), st[b[1]]
            for b, c in rel.get(a, ()):
                if c:
                    yield tuple(bj - aj for aj, bj in zip(a[0], b[0])), st[b[1]]
        return f

    start, finish = {}, {}
    for i, a in enumerate(nodes):
        start[a] = ctx.bool('b%d' % i) if i < ends else (i % 2 == 0 if ends == 0 else i == ends)
        k = len(nodes) - 1 - i
        finish[a] = ctx.bool('f%d' % i) if k < ends else (i % 2 == 1 or i == 0 if ends == 0 else k == ends)
    kw = {}
    if limits == 'sym':
        kw['start_max_count'] = ctx.int('start_max', 0, 5)
        kw['finish_max_count'] = ctx.int('finish_max', 0, 5)
    elif limits == 'big':
        kw['start_max_count'] = ctx.int('start_max', 1000, 2000)
    elif limits == 'none':
        kw['finish_max_count'] = None
        kw['start_max_count'] = ctx.int('start_max', 0, 5)
    tree = CubePathTree(dim=dim, div=div, next_func=rule(succ), prev_func=rule(pred) if prev else None)
    if twice:
        # an earlier search with other ends on the same tree must leave nothing behind
        for _ in tree.grow([(nodes[-1][0], st[nodes[-1][1]])], [(a[0], st[a[1]]) for a in nodes], start_max_count=3):
            break
    got = {}
    for path in tree.grow([(a[0], st[a[1]]) for a in nodes if start[a]], [(a[0], st[a[1]]) for a in nodes if finish[a]], **kw):
        key = tuple((tuple(c), num(s)) for c, s in path)
        got[key] = got.get(key, 0) + 1
    all_seq = list(ham(nodes, cond, G))
    known = set(all_seq)
    ctx.check(all(k in known for k in got), 'only sequences of allowed steps that fill the grid')
    ctx.check(all(v == 1 for v in got.values()), 'no path twice')
    every = []
    for seq in all_seq:
        valid = AND([start[seq[0]], finish[seq[-1]]] + [cond[a, b] for a, b in zip(seq, seq[1:])])
        if seq in got or not (valid is False):
            every.append(IFF(seq in got, valid))
    ctx.check(AND(every), 'path present exactly if it is valid')


def h_noprev(ctx):
    """Finish expansion without the inverse rule is refused; with no limit it is not needed."""
    from peano._cube_path_trees import CubePathTree
    tree = CubePathTree(dim=1, div=3, next_func=lambda c, s: [((1,), s), ((-1,), s)])
    n = ctx.int('n', 0, 9)
    try:
        list(tree.grow([((0,), 0)], [((2,), 0)], finish_max_count=n))
        ok = True
    except Exception:
        ok = False
    ctx.check(not ok, 'inverse rule required')
    ctx.check(len(list(tree.grow([((0,), 0)], [((2,), 0)], start_max_count=n, finish_max_count=None))) == 1, 'found without it')


def g(dim, div, states, nsym, table, ends, limits, clash=False, **k):
    return dict(dim=dim, div=div, states=states, nsym=nsym, table=table, ends=ends, limits=limits, clash=clash, **k)


HARNESSES = [
    {'name': 'grow', 'fn': h_grow,
     'quick': [g(1, 2, 1, 2, 100, 2, 'sym'), g(1, 2, 2, 4, 60, 2, 'sym', True), g(1, 3, 1, 6, 100, 2, 'sym'), g(1, 4, 1, 12, 0, 0, 'default'), g(2, 2, 1, 6, 60, 1, 'sym'), g(2, 2, 2, 7, 50, 1, 'default', True),
               g(1, 5, 1, 7, 60, 1, 'none', prev=False), g(1, 5, 1, 5, 60, 1, 'sym', True), g(1, 6, 1, 7, 50, 1, 'default'), g(1, 4, 2, 6, 50, 0, 'sym', True), g(2, 2, 2, 5, 50, 1, 'none', True), g(1, 6, 1, 4, 60, 0, 'sym', True), g(1, 7, 1, 5, 35, 1, 'sym'), g(3, 2, 1, 4, 30, 1, 'sym'), g(1, 8, 1, 2, 80, 0, 'default'), g(1, 8, 1, 1, 80, 0, 'big', prev=True), g(1, 6, 1, 3, 90, 1, 'big'), g(1, 9, 1, 2, 33, 1, 'default'), g(2, 3, 1, 3, 30, 1, 'default'), g(1, 4, 1, 6, 50, 1, 'default', twice=True), g(2, 2, 1, 6, 60, 1, 'sym', True, twice=True), g(1, 5, 1, 5, 60, 1, 'default', twice=True)],
     'thorough': [g(1, 4, 1, 12, 0, 1, 'sym'), g(1, 4, 1, 12, 0, 1, 'none'), g(2, 2, 2, 9, 25, 1, 'sym', True), g(1, 5, 1, 10, 40, 1, 'sym'), g(1, 6, 1, 8, 40, 1, 'sym'), g(1, 7, 1, 8, 25, 1, 'default'), g(3, 2, 1, 8, 25, 1, 'default'), g(2, 3, 1, 8, 18, 1, 'default')]},
    {'name': 'noprev', 'fn': h_noprev, 'quick': [{}]},
]
