"""C23: the search driver examines every gate configuration and path, keeps its limits and reports the outcome."""
import contextlib
import inspect
import io
import itertools
import os
import sys
import tempfile
from symx.api import *
from symx import api
from harness.common import *
from harness.dil import *

FUNCTIONS = ['search.run_search', 'search.py command line handling']
BOUNDS = ('0..2 gate configurations of 1..2 patterns, 0..2 path tuples for each (symbolic counts), every subset of the options, option values symbolic integers and a symbolic rational bound when called as a function, fixed texts on the command line; '
          'result found or not for each group; one real search (dim 2, div 2, one pattern) with a symbolic metric weight')
OUTSIDE = 'formatting of the report beyond the bounds and the curves themselves; log messages; real searches of other sizes (the parts are C13..C21)'
ASSUMPTIONS = ['generators, path search and estimates behave as in C14, C15, C21 (replaced by recording stand-ins here)']


class Tok:
    """Opaque value that can be printed."""

    def __init__(self, text, num=0.0):
        self.text, self.num = text, num

    def __repr__(self):
        return self.text

    __str__ = __repr__

    def __float__(self):
        return self.num


class World:
    """Recording stand-ins for the classes search.py uses."""

    def __init__(self, ctx, nges, npaths, found):
        self.ctx = ctx
        self.nges, self.npaths, self.found = nges, npaths, found
        self.gg, self.pg, self.est, self.calls = [], [], [], []

    def patches(self, mult):
        w = self
        from peano import gates, paths, curves, dilation
        seq = inspect.signature(dilation.Estimator.estimate_dilation_sequence)
        self.seq_defaults = {k: p.default for k, p in seq.parameters.items()}

        class GatesGenerator:
            def __init__(self, dim, div, mult, only_facet=False, **kw):
                w.gg.append((dim, div, mult, only_facet, kw))

            def gen_gates(self, *a, **kw):
                w.gg[-1] += (a, kw)
                for i in range(w.nges):
                    yield tuple(Tok('gate%d.%d' % (i, j)) for j in range(mult))

        class PathsGenerator:
            def __init__(self, dim, div, links, max_cdist=None):
                self.rec = {'dim': dim, 'div': div, 'links': tuple(links), 'max_cdist': max_cdist}
                self.idx = len(w.pg)
                w.pg.append(self.rec)

            def generate_paths(self, start_max_count=None, finish_max_count=None, std=False, **kw):
                sig = inspect.signature(paths.PathsGenerator.generate_paths).parameters
                self.rec['finish'] = sig['finish_max_count'].default if finish_max_count is None else finish_max_count
                self.rec['start'] = start_max_count
                self.rec['std'] = std
                n = w.npaths[self.idx % len(w.npaths)]
                for i in range(n):
                    yield ('paths', self.rec['links'], i)

        class PathFuzzyCurve:
            @staticmethod
            def init_from_paths(p, *a, **kw):
                assert not a and not kw
                return ('curve', p)

        class Estimator:
            def __init__(self, ratio_func, **kw):
                w.est.append((ratio_func, kw))

            def estimate_dilation_sequence(self, curves, **kw):
                curves = list(curves)
                i = len(w.calls)
                ok = w.found[i % len(w.found)] and bool(curves)
                w.calls.append((curves, {k: v for k, v in kw.items() if k not in w.seq_defaults or v is not w.seq_defaults[k]}))
                if not ok:
                    return None
                return {'lo': Tok('LOWER%d' % i, 1000.25 + i), 'up': Tok('UPPER%d' % i, 2000.5 + i), 'curves': [Tok('BEST%d' % i), Tok('OTHER%d' % i)], 'idxs': [0, 1]}

            def get_info(self):
                return {'sum_stats': Tok('SUMSTATS'), 'max_stats': {}}
        return [(gates, GatesGenerator), (paths, PathsGenerator), (curves, PathFuzzyCurve), (dilation, Estimator)]


@contextlib.contextmanager
def installed(world, mult):
    old = []
    ps = world.patches(mult)
    for mod, cls in ps:
        old.append(getattr(mod, cls.__name__))
        setattr(mod, cls.__name__, cls)
    try:
        yield
    finally:
        for (mod, cls), o in zip(ps, old):
            setattr(mod, cls.__name__, o)


def load(name, argv=None):
    path = os.path.join(api.REPO, 'search.py')
    if not os.path.exists(path):
        raise SkipHarness('no search.py')
    with open(path) as fh:
        code = compile(fh.read(), path, 'exec')
    ns = {'__name__': name, '__file__': path, '__builtins__': __builtins__}
    import logging
    logging.disable(logging.CRITICAL)
    old = sys.argv
    if argv is not None:
        sys.argv = ['search.py'] + argv
    try:
        exec(code, ns)
    finally:
        sys.argv = old
    return ns


def expect(ctx, w, text, gates, o, ratio):
    """o: option values; gates: expected list of gate tuples (None entries of tokens compared by text)."""
    if o.get('output_gates'):
        ctx.check(not w.calls, 'only the gates are printed')
        ctx.check(all(str(g) in text for gs in gates for g in gs), 'every gate is printed')
        return
    ctx.check(len(w.est) == 1 and w.est[0][0] is ratio, 'the metric asked for is used')
    ctx.check(EQ(w.est[0][1].get('cache_max_size'), o.get('cache_max_size')), 'cache size passed on')
    ctx.check(len(w.pg) == len(gates), 'paths are generated for every gate configuration')
    for r, gs in zip(w.pg, gates):
        ctx.check(AND([EQ(r['dim'], o['dim']), EQ(r['div'], o['div'])]) and len(r['links']) == len(gs) and all(str(a) == str(b) for a, b in zip(r['links'], gs)), 'paths for the right gates')
        ctx.check(EQ(r['max_cdist'], o.get('max_cdist')), 'cube distance limit passed on')
        ctx.check(bool(r['std']) and r['start'] is None, 'paths up to symmetry')
        if o.get('finish_max_count') is not None:
            ctx.check(EQ(r['finish'], o['finish_max_count']), 'search limit passed on')
    groups = [[i] for i in range(len(gates))] if o.get('group_by_gates') else [list(range(len(gates)))]
    ctx.check(len(w.calls) == len(groups), 'one estimate per group')
    for n, ((curves, kw), grp) in enumerate(zip(w.calls, groups)):
        want = [('curve', ('paths', w.pg[g]['links'], i)) for g in grp for i in range(w.npaths[g % len(w.npaths)])]
        ctx.check(curves == want, 'every path of the group is estimated once')
        keys = {'upper_bound', 'rel_tol_inv', 'rel_tol_inv_mult'}
        ctx.check(set(kw) == {k for k in keys if o.get(k) is not None}, 'no option dropped, none invented')
        for k in kw:
            ctx.check(EQ(kw[k], o[k]), 'options of the estimate passed on')
        parts = text.split('GENERATOR')
        if len(parts) == len(groups) + 1:
            part = parts[n + 1]
            if w.found[n % len(w.found)] and curves:
                ctx.check('LOWER%d' % n in part and 'UPPER%d' % n in part and 'BEST%d' % n in part and 'OTHER%d' % n in part, 'bounds and curves are reported')
                ctx.check('NOT FOUND' not in part and str(1000.25 + n) in part and str(2000.5 + n) in part, 'bounds are reported as numbers')
            else:
                ctx.check('NOT FOUND' in part and 'LOWER' not in part, 'a failed search is reported')
        else:
            ctx.check(False, 'one report per group')


def world(ctx, mult, fixed=None):
    n = ctx.choose('gates', [0, 1, 2]) if fixed is None else fixed
    npaths = [ctx.choose('paths%d' % i, [0, 1, 2] if i == 0 else [0, 2]) for i in range(n)] or [0]
    found = [ctx.choose('found%d' % i, [True, False]) for i in range(max(n, 1))]
    return World(ctx, n, npaths, found)


def h_call(ctx, opts, given=False, mult=2, group=None):
    """run_search called as a function; opts: names of options that may be given."""
    ns = None
    w = world(ctx, mult)
    with installed(w, mult):
        ns = load('search')
        if 'run_search' not in ns:
            raise SkipHarness('no run_search')
        o = {'dim': ctx.int('dim', 1, 5), 'div': ctx.int('div', 2, 9)}
        for k in opts:
            if ctx.choose('give_' + k, [False, True]):
                o[k] = ctx.frac(k, Fraction(1), Fraction(99)) if k == 'upper_bound' else True if k in ('facet_gated', 'group_by_gates', 'output_gates') else ctx.int(k, 1, 999)
        ratio = Tok('ratio')
        kw = dict(o, mult=mult, ratio_func=ratio)
        gates = [tuple(Tok('gate%d.%d' % (i, j)) for j in range(mult)) for i in range(w.nges)]
        if given:
            kw['gate_list'] = [list(g) for g in gates]
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            ns['run_search'](**kw)
    if given:
        ctx.check(not w.gg, 'given gates are used')
    else:
        ctx.check(len(w.gg) == 1 and AND([EQ(w.gg[0][0], o['dim']), EQ(w.gg[0][1], o['div'])]) and w.gg[0][2] == mult and bool(w.gg[0][3]) == bool(o.get('facet_gated')), 'gates for the right configuration')
    expect(ctx, w, buf.getvalue(), gates, o, ratio)


FLAGS = {'max_cdist': ('--max-cdist', '3', 3), 'finish_max_count': ('--finish-max-count', '40', 40), 'upper_bound': ('--upper-bound', '11/2', (11, 2)), 'rel_tol_inv': ('--rel-tol-inv', '70', 70),
         'rel_tol_inv_mult': ('--rel-tol-inv_mult', '6', 6), 'cache_max_size': ('--cache-max-size', '512', 512), 'facet_gated': ('--facet-gated', None, True), 'group_by_gates': ('--group-by-gates', None, True), 'output_gates': ('--output-gates', None, True)}
GATES = ['(0,0)->(1,1/2)|(0,1/3)->(1,0)', '(0,0)->(1,1)|(1/2,0)->(1,0)']


def h_cli(ctx, opts, src, metric='l1', dim=2):
    """The command line; src: where gates come from."""
    from peano import utils
    from peano.subsets import Link
    mult = 2
    w = world(ctx, mult, fixed={'gen': None, 'opt': 1, 'file': 2}[src])
    argv = ['--dim', str(dim), '--mult', '2', '--div', '3']
    o = {'dim': dim, 'div': 3}
    tmp = None
    for k in opts:
        if ctx.choose('give_' + k, [False, True]):
            flag, text, val = FLAGS[k]
            argv += [flag] + ([text] if text is not None else [])
            o[k] = Fraction(*val) if k == 'upper_bound' else val
    if metric is not None:
        argv += ['--metric', metric]
    if src == 'gen':
        gates = [tuple(Tok('gate%d.%d' % (i, j)) for j in range(mult)) for i in range(w.nges)]
    else:
        use = GATES[1:] if src == 'opt' else GATES
        gates = [[Link.parse_gates(t) for t in g.split('|')] for g in use]
        if src == 'opt':
            argv += ['--gates', use[0]]
        else:
            fd, tmp = tempfile.mkstemp(prefix='symx-gates-')
            with os.fdopen(fd, 'w') as fh:
                fh.write(''.join(g + '\n' for g in use))
            argv += ['--gates-file', tmp]
    buf = io.StringIO()
    import logging
    err = None
    try:
        with installed(w, mult), contextlib.redirect_stdout(buf):
            root = logging.getLogger()
            keep, level = list(root.handlers), root.level
            if not root.handlers:
                root.addHandler(logging.NullHandler())
            try:
                load('__main__', argv)
            except ValueError as ex:
                err = ex
            finally:
                root.handlers[:] = keep
                root.setLevel(level)
    finally:
        if tmp:
            os.unlink(tmp)
    bad = (metric == 'l2' and dim % 2 == 1) or (metric is None and not o.get('output_gates'))
    ctx.check((err is not None) == bad, 'a metric that cannot be used is refused, others are not')
    if bad:
        ctx.check(not w.calls, 'nothing is estimated')
        return
    if src == 'gen':
        ctx.check(len(w.gg) == 1 and tuple(w.gg[0][:3]) == (dim, 3, mult) and bool(w.gg[0][3]) == bool(o.get('facet_gated')), 'gates for the right configuration')
    else:
        ctx.check(not w.gg, 'given gates are used')
    ratio = {'l1': utils.ratio_l1, 'l2': utils.ratio_l2, 'l2_squared': utils.ratio_l2_squared, 'linf': utils.ratio_linf, None: None}[metric]
    expect(ctx, w, buf.getvalue(), gates, o, ratio)


def h_real(ctx, kinds, win, tol, q=256, gap=20, group=False):
    """A real search over all curves with dim 2, div 2, one pattern."""
    from peano import dilation
    from harness.c20 import curves_in, refs, spec_key, H
    fuzzy, curves = curves_in(H, [], 0)
    rs = refs(H, [], 0, curves, kinds, gap)
    w = Var(ctx, 'w', F(win[0], q), F(win[1], q))
    got = []
    real = dilation.Estimator

    class Est(real):
        def estimate_dilation_sequence(self, *a, **kw):
            res = super().estimate_dilation_sequence(*a, **kw)
            got.append(None if res is None else dict(res))
            return None
    dilation.Estimator = Est
    try:
        ns = load('search')
        if 'run_search' not in ns:
            raise SkipHarness('no run_search')
        with contextlib.redirect_stdout(io.StringIO()):
            ns['run_search'](2, 2, 1, ratio_func=mixed(kinds, w), rel_tol_inv=tol, group_by_gates=group)
    finally:
        dilation.Estimator = real
    ctx.check(len(got) >= 1 and all(g is not None for g in got), 'something is found')
    lo, up = MIN([sf(g['lo']) for g in got]), MIN([sf(g['up']) for g in got])
    ctx.check(AND([OR([lo <= val(f, w) for f in r[1]]) for r in rs.values()]), 'lower bound is not above the minimum over all curves')
    ctx.check(OR([AND([up >= val(f, w) for f in r[0]]) for r in rs.values()]), 'upper bound is not below the minimum over all curves')
    ctx.check(up <= lo * Fraction(tol + 1, tol), 'bounds meet the tolerance')


EST = ['upper_bound', 'rel_tol_inv', 'rel_tol_inv_mult', 'group_by_gates']
GEN = ['max_cdist', 'finish_max_count', 'facet_gated', 'cache_max_size']
HARNESSES = [
    {'name': 'call', 'fn': h_call, 'quick': [dict(opts=EST), dict(opts=GEN), dict(opts=EST[:2], given=True, mult=1), dict(opts=GEN[:2] + ['group_by_gates'], given=True), dict(opts=['output_gates']), dict(opts=EST + GEN, _w=9), dict(opts=EST + GEN, given=True, mult=3, _w=9), dict(opts=['output_gates', 'facet_gated', 'upper_bound'], given=True)]},
    {'name': 'cli', 'fn': h_cli, 'quick': [dict(opts=EST[:3], src='gen'), dict(opts=GEN, src='gen', metric='linf'), dict(opts=EST[3:] + GEN[:2], src='opt', metric='l2_squared', dim=3), dict(opts=EST[2:] + GEN[3:], src='file', metric='l2'), dict(opts=['output_gates'], src='gen', metric=None), dict(opts=[], src='gen', metric='l2', dim=3)] + [dict(opts=EST + GEN[:2], src=s, metric=m, dim=d) for s in ('gen', 'opt', 'file') for m, d in (('l1', 2), ('l2', 4), ('l2_squared', 3))]},
    {'name': 'real', 'fn': h_real, 'quick': [dict(kinds=('l1', 'min'), win=(100, 102), tol=12), dict(kinds=('prod', 'linf'), win=(30, 32), tol=12, group=True)], 'thorough': [dict(kinds=k, win=(a, a + 8), tol=20) for k in (('l1', 'min'), ('prod', 'linf')) for a in (0, 60, 120, 180, 240)]},
]
