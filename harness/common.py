"""Independent reference semantics used as oracles (nothing here calls peano's own arithmetic)."""
import itertools
from symx.api import *


def bmkey(b):
    """Base map as plain data ((k,b),...), time_rev."""
    if isinstance(b, tuple):
        return b
    return tuple((k, bool(f)) for k, f in b.coords), bool(b.time_rev)


_maps = {}


def all_maps(dim, time_rev=None):
    """All isometries as plain data."""
    key = (dim, time_rev)
    if key not in _maps:
        _maps[key] = [(tuple(zip(p, f)), r) for p in itertools.permutations(range(dim))
                      for f in itertools.product([False, True], repeat=dim)
                      for r in ([False, True] if time_rev is None else [time_rev])]
    return _maps[key]


def ref_x(k, x, mx=1):
    return tuple(mx - x[i] if b else x[i] for i, b in k[0])


def ref_vec(k, x):
    return tuple(-x[i] if b else x[i] for i, b in k[0])


def ref_cube(k, div, c):
    return ref_x(k, c, div - 1)


def ref_t(k, t, mt=1):
    return mt - t if k[1] else t


def ref_mul(a, b):
    """a after b."""
    return tuple((b[0][p][0], f ^ b[0][p][1]) for p, f in a[0]), a[1] ^ b[1]


def ref_inv(a):
    out = [None] * len(a[0])
    for i, (k, b) in enumerate(a[0]):
        out[k] = (i, b)
    return tuple(out), a[1]


def ref_id(dim):
    return tuple((i, False) for i in range(dim)), False


def ref_rev(a):
    return a[0], not a[1]


def cube_part(a):
    return a[0], False


def lex_min(tuples):
    """Lexicographic minimum without branching."""
    tuples = list(tuples)
    r = tuples[0]
    for t in tuples[1:]:
        r = ITE(LEXLT(t, r), t, r)
    return r


def ref_std(p):
    return lex_min(ref_x(k, p) for k in all_maps(len(p), False))


def few_points(ctx, name, dim, few):
    """One of few points with various coincidences (equal, complementary, central coordinates)."""
    return ctx.choose(name, [tuple(Fraction((i * (j + 2) + j * j * (i % 3)) % 7, 6) for j in range(dim)) for i in range(few)])


def facet(ctx, name, dim, div, n):
    """Arbitrary facet subset with n nested cubes (symbolic addresses)."""
    from peano.subsets import FacetDivSubset
    fc = ctx.choose(name + '.facet', [(c, v) for c in range(dim) for v in (0, 1)])
    cubes = [tuple(ctx.int('%s.%d.%d' % (name, i, j), 0, div - 1) for j in range(dim - 1)) for i in range(n)]
    return FacetDivSubset(dim, div, fc, cubes)


def ref_facet(k, s, div):
    """Image of a facet subset under an isometry: (facet, cubes)."""
    fc, fv = s.facet
    for j, (i, b) in enumerate(k[0]):
        if i == fc:
            nf = (j, 1 - fv if b else fv)
    rest = [(i, b) for j, (i, b) in enumerate(k[0]) if j != nf[0]]
    pos = [i for i in range(s.dim) if i != fc]
    cubes = []
    for c in s.cubes:
        full = dict(zip(pos, c))
        cubes.append(tuple(div - 1 - full[i] if b else full[i] for i, b in rest))
    return nf, tuple(cubes)


# ------------------------------------------------------------ curves as plain data

class Plain:
    """Multifractal as plain data: patterns[p] = [(cube, (mapkey, pnum)), ...]."""

    def __init__(self, dim, div, patterns):
        self.dim, self.div, self.patterns = dim, div, patterns
        self.genus = div**dim

    @classmethod
    def of(cls, curve):
        return cls(curve.dim, curve.div, [
            [(cube, None if s is None else (bmkey(s.base_map), s.pnum)) for cube, s in zip(p.proto, p.specs)]
            for p in curve.patterns])

    def level1(self, k, pnum):
        """Fractions of (k, pnum) * curve in time order: [(cube, (k', pnum'))] with k' absolute."""
        pat = self.patterns[pnum]
        if k[1]:
            pat = reversed(pat)
        out = []
        for cube, s in pat:
            c = None if cube is None else ref_cube(k, self.div, cube)
            out.append((c, None if s is None else (ref_mul(k, s[0]), s[1])))
        return out

    def level(self, k, pnum, depth):
        """All fractions at given depth in time order: (integer cube in div^depth grid, (k', pnum'))."""
        cur = [((0,) * self.dim, (k, pnum))]
        for _ in range(depth):
            nxt = []
            for c, (kk, pn) in cur:
                for c2, s in self.level1(kk, pn):
                    nxt.append((tuple(a * self.div + b for a, b in zip(c, c2)), s))
            cur = nxt
        return cur

    def deep(self, k, pnum, cnums):
        """Single fraction addressed by cnums: cube and spec."""
        c, s = (0,) * self.dim, (k, pnum)
        for n in cnums:
            c2, s = self.level1(*s)[n]
            c = tuple(a * self.div + b for a, b in zip(c, c2))
        return c, s


def spec_of(key, pnum=0):
    from peano.base_maps import BaseMap, Spec
    return Spec(BaseMap(*key), pnum)


# ------------------------------------------------------------ symbolic curves

def sym_cubes(ctx, name, dim, div, n=None):
    """n cubes with arbitrary (symbolic) coordinates."""
    n = div**dim if n is None else n
    return [tuple(ctx.int('%s%d.%d' % (name, i, j), 0, div - 1) for j in range(dim)) for i in range(n)]


def mix(dim, i, time=True):
    """Deterministic varied isometry number i."""
    if dim > 5:
        # unranked: the whole list is too long
        rest, n, perm = list(range(dim)), i * 7919 + 12345, []
        while rest:
            n, m = divmod(n * 5 + 3 * i + 1, len(rest))
            perm.append(rest.pop(m))
            n += i * 31
        return tuple((k, bool((i * 29 + 7) >> j & 1)) for j, k in enumerate(perm)), bool(time and i % 3 == 1)
    ms = all_maps(dim) if time else all_maps(dim, False)
    return ms[(i * 37 + 11) % len(ms)]


def table(dim, genus, mult, seed=0):
    """Varied spec table: specs[p][c] = (key, pnum)."""
    return [[(mix(dim, 7 * p + 3 * c + c * c + 5 * seed), (p + c + c // 2 + seed // 3) % mult) for c in range(genus)] for p in range(mult)]


def any_spec(ctx, name, dim, mult, few=None):
    k = some_maps(ctx, name, dim, few)
    pn = ctx.choose(name + '.pnum', list(range(mult))) if mult > 1 else 0
    return k, pn


def mk_curve(dim, div, cubes, specs, pnum=0, cls=None):
    """Real curve object from plain data (specs[p][c] = (key, pnum) or None)."""
    from peano.curves import Curve
    cls = cls or Curve
    return cls(dim, div, [(cs, [None if s is None else spec_of(*s) for s in sp]) for cs, sp in zip(cubes, specs)], pnum)


def same_levels(ctx, got, want, what):
    """Compare two fraction lists [(cube, (key, pnum))]."""
    ctx.check(len(got) == len(want), what + ': number of fractions')
    ctx.check([g[1] for g in got] == [w[1] for w in want], what + ': orientations')
    ctx.check(EQ(tuple(g[0] for g in got), tuple(w[0] for w in want)), what + ': cubes')


def snake(dim, div):
    """Cubes of the grid in boustrophedon order."""
    if dim == 0:
        return [()]
    sub = snake(dim - 1, div)
    out = []
    for i in range(div):
        out += [(i,) + c for c in (sub if i % 2 == 0 else reversed(sub))]
    return out


def some_maps(ctx, name, dim, few):
    """One of few varied isometries (all of them when few is None)."""
    if few is None or dim < 5 and few >= len(all_maps(dim)):
        return ctx.base_map_data(name, dim)
    return ctx.choose(name, [mix(dim, i) for i in range(few)])


# ------------------------------------------------------------ junctions as plain data (s1, s2, dx), s = (key, pnum)

def jn_norm(j):
    """Apply the isometry that makes the first fraction's cube map the identity."""
    (k1, p1), (k2, p2), dx = j
    h = ref_inv(cube_part(k1))
    return (ref_mul(h, k1), p1), (ref_mul(h, k2), p2), ref_vec(h, dx)


def jn_swap(j):
    """The same pair of fractions passed in reversed time."""
    (k1, p1), (k2, p2), dx = j
    return (ref_rev(k2), p2), (ref_rev(k1), p1), tuple(-v for v in dx)


def jn_same(a, b):
    """Same up to isometry and time reversal (a condition)."""
    a = jn_norm(a)
    return OR([AND([a[0] == c[0], a[1] == c[1], EQ(a[2], c[2])]) for c in (jn_norm(b), jn_norm(jn_swap(b)))])


def jn_canon(j):
    """Concrete junctions: representative of the class."""
    return min(jn_norm(j), jn_norm(jn_swap(j)))


def jn_of(junc):
    """Real junction object as plain data."""
    return ((bmkey(junc.spec1.base_map), junc.spec1.pnum), (bmkey(junc.spec2.base_map), junc.spec2.pnum), tuple(junc.delta_x))


def jn_base(plain, p, c):
    (c1, s1), (c2, s2) = plain.patterns[p][c], plain.patterns[p][c + 1]
    return s1, s2, tuple(b - a for a, b in zip(c1, c2))


def jn_derive(plain, j):
    s1, s2, dx = j
    c1, t1 = plain.level1(*s1)[-1]
    c2, t2 = plain.level1(*s2)[0]
    return t1, t2, tuple(b + d * plain.div - a for a, b, d in zip(c1, c2, dx))


def jn_all(plain):
    """All regular junctions of a concrete curve: {class: least depth}, {depth: classes occurring there} (until nothing new)."""
    cls, exact, at = {}, {}, {}
    cur = [jn_norm(jn_base(plain, p, c)) for p in range(len(plain.patterns)) for c in range(plain.genus - 1)]
    depth = 1
    while cur:
        new = []
        for j in cur:
            cls.setdefault(jn_canon(j), depth)
            at.setdefault(depth, set()).add(jn_canon(j))
            new.append(jn_norm(jn_derive(plain, j)))
        new = sorted(set(new))
        key = tuple(new)
        if key in exact:
            # periodic from here on
            exact.setdefault('period', (exact[key], depth))
            if depth >= exact['stop']:
                break
        else:
            exact[key] = depth
            exact['stop'] = depth + 12
        cur = new
        depth += 1
    return cls, at


def continuous_family(name):
    """Concrete fuzzy curve of a zoo curve and the zoo curve."""
    from peano import zoo
    c = getattr(zoo, name)().curve
    return c, c.forget()


def pick_specs(ctx, fuzzy, base, free):
    """Full curve compatible with fuzzy: arbitrary allowed orientations at the free positions, the base's elsewhere."""
    specs = [[(bmkey(s.base_map), s.pnum) for s in pat.specs] for pat in base.patterns]
    for p, c in free:
        opts = [(bmkey(s.base_map), s.pnum) for s in fuzzy.gen_allowed_specs(p, c)]
        specs[p][c] = ctx.choose('sp%d_%d' % (p, c), opts)
    return specs
