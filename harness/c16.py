"""C16: the collection of bounded items loses nothing: every item is active, bad or provably good; the worst comes first."""
import itertools
from symx.api import *

FUNCTIONS = ['peano._bounded_items_heap.BoundedItemsHeap.__init__/push/pop/top/size/items/update_good_threshold/pop_bad_items/copy_and_cleanup/_extend']
BOUNDS = ('every history of up to 5 operations (add, take worst, raise threshold, take bad ones) with arbitrary real bounds and thresholds, present or absent; '
          'histories "add n, operation, drain" for n up to 5 (thorough: 7 operations, n up to 6)')
OUTSIDE = 'longer histories'
ASSUMPTIONS = ['items have lo <= up']


def mk(ctx, name):
    from peano._bounded_items_heap import BoundedItem
    lo = ctx.frac(name + '.lo')
    up = ctx.frac(name + '.up')
    ctx.assume(lo <= up)
    return BoundedItem(lo=lo, up=up)


class Ref:
    """Plain list model."""

    def __init__(self, good, bad):
        self.good, self.bad = good, bad
        self.active, self.badl, self.all = [], [], []

    def push(self, it, fresh=True):
        if fresh:
            self.all.append(it)
        if self.good is not None and it.up <= self.good:
            return
        if self.bad is not None and it.lo >= self.bad:
            self.badl.append(it)
            return
        self.active.append(it)


def same_items(a, b):
    return sorted(map(id, a)) == sorted(map(id, b))


def take(ctx, ref, it, msg):
    ctx.check(any(it is x for x in ref.active), msg + ': an active item')
    ctx.check(AND([it.up >= x.up for x in ref.active]), msg + ': the greatest upper bound')
    ref.active = [x for x in ref.active if x is not it]


def state(ctx, heap, ref, keep):
    ctx.check(heap.size() == len(ref.active), 'size is the number of active items')
    ctx.check(same_items(list(heap.items()), ref.active), 'active items: neither good nor bad')
    if ref.active:
        t = heap.top()
        ctx.check(any(t is x for x in ref.active), 'top is active')
        ctx.check(AND([t.up >= x.up for x in ref.active]), 'top has the greatest upper bound')
    if keep and ref.all:
        m = heap.max_lo_item
        ctx.check(any(m is x for x in ref.all), 'remembered item was added')
        ctx.check(AND([m.lo >= x.lo for x in ref.all]), 'remembered item has the greatest lower bound')


def drain(ctx, heap, ref):
    while ref.active:
        take(ctx, ref, heap.pop(), 'drain')
    ctx.check(heap.size() == 0, 'nothing left')
    ctx.check(same_items(heap.pop_bad_items(), ref.badl), 'bad items')


def raise_thr(ctx, heap, ref, name):
    t = ctx.frac(name)
    try:
        heap.update_good_threshold(t)
        ok = True
    except ValueError:
        ok = False
    ctx.check(IFF(ok, True if ref.good is None else t >= ref.good), 'threshold can only be raised')
    if ok:
        ref.good = t
        ref.active = [x for x in ref.active if x.up > t]
    return ok


def start(ctx, thr):
    from peano._bounded_items_heap import BoundedItemsHeap
    good = ctx.frac('good') if thr & 1 else None
    bad = ctx.frac('bad') if thr & 2 else None
    keep = bool(thr & 4)
    return BoundedItemsHeap(good_threshold=good, bad_threshold=bad, keep_max_lo_item=keep), Ref(good, bad), keep


OPS = ['push', 'pop', 'raise', 'bad']


def h_history(ctx, n, thr, first=1):
    heap, ref, keep = start(ctx, thr)
    for i in range(n):
        op = 'push' if i < first else ctx.choose('op%d' % i, OPS)
        if op == 'push':
            it = mk(ctx, 'i%d' % i)
            heap.push(it)
            ref.push(it)
        elif op == 'pop':
            if not ref.active:
                continue
            take(ctx, ref, heap.pop(), 'pop')
        elif op == 'raise':
            raise_thr(ctx, heap, ref, 't%d' % i)
        else:
            ctx.check(same_items(heap.pop_bad_items(), ref.badl), 'bad items')
            ref.badl = []
        state(ctx, heap, ref, keep)
    drain(ctx, heap, ref)


def h_bulk(ctx, n, thr):
    """Add n, raise the threshold, add one more, drain."""
    heap, ref, keep = start(ctx, thr)
    for i in range(n):
        it = mk(ctx, 'i%d' % i)
        heap.push(it)
        ref.push(it)
    raise_thr(ctx, heap, ref, 't')
    state(ctx, heap, ref, keep)
    it = mk(ctx, 'last')
    heap.push(it)
    ref.push(it)
    state(ctx, heap, ref, keep)
    drain(ctx, heap, ref)


def h_order(ctx, ups, thr, pops=0):
    """Many items with given upper bounds in a given order of arrival, arbitrary thresholds and one arbitrary item."""
    from peano._bounded_items_heap import BoundedItem
    heap, ref, keep = start(ctx, thr)
    for u in ups:
        it = BoundedItem(lo=Fraction(u, 2), up=Fraction(u))
        heap.push(it)
        ref.push(it)
    for _ in range(pops):
        if ref.active:
            take(ctx, ref, heap.pop(), 'pop')
    raise_thr(ctx, heap, ref, 't')
    state(ctx, heap, ref, keep)
    it = mk(ctx, 'last')
    heap.push(it)
    ref.push(it)
    drain(ctx, heap, ref)


ORDERS = [[10, 5, 9, 3, 2, 8, 7], [10, 5, 9, 3, 2, 8, 7, 1, 1], [1, 2, 3, 4, 5, 6, 7, 8], [8, 7, 6, 5, 4, 3, 2, 1], [10, 9, 5, 8, 7, 4, 3, 6, 2], [12, 4, 11, 3, 2, 10, 9, 1, 1, 1, 1, 8, 7], [5, 5, 3, 3, 5, 3, 4, 4]]


def num(i, seed, mod):
    return (i * i * 31 + i * 17 * (seed + 1) + seed * 7 + i // 3) % mod


def h_big(ctx, n, seed, thr, distinct=5, copy=False):
    """Many items with few distinct bounds, arbitrary thresholds, one arbitrary item in the middle of it all."""
    from peano._bounded_items_heap import BoundedItem, BoundedItemsHeap
    items = []
    for i in range(n):
        up = 2 + num(i, seed, distinct)
        items.append(BoundedItem(lo=Fraction(up - num(i, seed + 5, 3)), up=Fraction(up)))
    mid = mk(ctx, 'mid')
    items.insert(n // 2, mid)
    if copy:
        heap0 = BoundedItemsHeap(good_threshold=None, bad_threshold=None)
        for it in items:
            heap0.push(it)
        good = ctx.frac('good') if thr & 1 else None
        bad = ctx.frac('bad') if thr & 2 else None
        heap, ref, keep = heap0.copy_and_cleanup(good_threshold=good, bad_threshold=bad), Ref(good, bad), False
        for it in items:
            ref.push(it)
        ctx.check(heap0.size() == len(items) and same_items(list(heap0.items()), items), 'the original keeps everything')
    else:
        heap, ref, keep = start(ctx, thr)
        for it in items:
            heap.push(it)
            ref.push(it)
    state(ctx, heap, ref, keep)
    for _ in range(min(n // 3, len(ref.active))):
        quick_take(ctx, ref, heap.pop())
    raise_thr(ctx, heap, ref, 't')
    state(ctx, heap, ref, keep)
    while ref.active:
        quick_take(ctx, ref, heap.pop())
    ctx.check(heap.size() == 0, 'nothing left')
    ctx.check(same_items(heap.pop_bad_items(), ref.badl), 'bad items')


def quick_take(ctx, ref, it):
    ctx.check(any(it is x for x in ref.active), 'an active item')
    ctx.check(AND([it.up >= v for v in {id(v): v for v in dict((repr(x.up), x.up) for x in ref.active).values()}.values()]), 'the greatest upper bound')
    ref.active = [x for x in ref.active if x is not it]


def h_long(ctx, n, seed, thr):
    """Long history of a fixed pattern of operations; thresholds and some of the items are arbitrary."""
    from peano._bounded_items_heap import BoundedItem
    heap, ref, keep = start(ctx, thr)
    raised = 0
    for i in range(n):
        k = num(i, seed, 11)
        if k in (7, 8) and ref.active:
            take(ctx, ref, heap.pop(), 'pop')
        elif k == 9 and i % 7 == 2 and raised < 2:
            raised += 1
            raise_thr(ctx, heap, ref, 't%d' % i)
        elif k == 10:
            ctx.check(same_items(heap.pop_bad_items(), ref.badl), 'bad items')
            ref.badl = []
        else:
            up = 1 + num(i, seed + 3, 9)
            it = mk(ctx, 'i%d' % i) if i == n // 2 else BoundedItem(lo=Fraction(up, 1 + num(i, seed, 3)), up=Fraction(up))
            heap.push(it)
            ref.push(it)
        if i % 5 == 0:
            state(ctx, heap, ref, keep)
    state(ctx, heap, ref, keep)
    drain(ctx, heap, ref)


def h_copy(ctx, n, thr):
    from peano._bounded_items_heap import BoundedItemsHeap
    heap = BoundedItemsHeap(good_threshold=None, bad_threshold=None)
    items = [mk(ctx, 'i%d' % i) for i in range(n)]
    for it in items:
        heap.push(it)
    good = ctx.frac('good') if thr & 1 else None
    bad = ctx.frac('bad') if thr & 2 else None
    new = heap.copy_and_cleanup(good_threshold=good, bad_threshold=bad)
    ref = Ref(good, bad)
    for it in items:
        ref.push(it)
    state(ctx, new, ref, False)
    drain(ctx, new, ref)
    ctx.check(same_items(list(heap.items()), items) and heap.size() == n, 'the original keeps everything')
    second = heap.copy_and_cleanup(good_threshold=good, bad_threshold=bad)
    ref = Ref(good, bad)
    for it in items:
        ref.push(it)
    drain(ctx, second, ref)


HARNESSES = [
    {'name': 'history', 'fn': h_history, 'quick': [{'n': 4, 'thr': t} for t in range(8)] + [{'n': 5, 'thr': 4, 'first': 4}, {'n': 5, 'thr': 1, 'first': 3}, {'n': 5, 'thr': 2, 'first': 3}],
     'thorough': [{'n': 5, 'thr': t} for t in range(8)] + [{'n': 7, 'thr': 4, 'first': 3}, {'n': 6, 'thr': 3, 'first': 3}]},
    {'name': 'bulk', 'fn': h_bulk, 'quick': [{'n': 3, 'thr': 1}, {'n': 3, 'thr': 4}, {'n': 4, 'thr': 0}, {'n': 2, 'thr': 7}], 'thorough': [{'n': 5, 'thr': 4}, {'n': 4, 'thr': 1}, {'n': 3, 'thr': 7}]},
    {'name': 'order', 'fn': h_order, 'quick': [{'ups': o, 'thr': t} for o in ORDERS for t in (0, 5)] + [{'ups': o, 'thr': 0, 'pops': 2} for o in ORDERS[1::2]], 'thorough': [{'ups': o, 'thr': t, 'pops': p} for o in ORDERS for t in range(8) for p in (0, 1, 3)]},
    {'name': 'big', 'fn': h_big, 'quick': [{'n': 40, 'seed': 1, 'thr': 0}, {'n': 40, 'seed': 2, 'thr': 4}, {'n': 150, 'seed': 3, 'thr': 0, 'distinct': 3}, {'n': 30, 'seed': 4, 'thr': 2, 'distinct': 3}, {'n': 60, 'seed': 5, 'thr': 1, 'copy': True, 'distinct': 3}] + [{'n': 200, 'seed': s, 'thr': t} for s in (6, 7) for t in (0, 4)] + [{'n': 1100, 'seed': 8, 'thr': 0, 'distinct': 2}, {'n': 100, 'seed': 9, 'thr': 3, 'copy': True, 'distinct': 3}]},
    {'name': 'long', 'fn': h_long, 'quick': [{'n': 60, 'seed': s, 'thr': t} for s, t in ((1, 0), (2, 4), (3, 1), (4, 2), (6, 4), (7, 0))] + [{'n': 90, 'seed': 8, 'thr': 4}, {'n': 400, 'seed': 9, 'thr': 0}], 'thorough': [{'n': 150, 'seed': s, 'thr': t} for s in range(5, 8) for t in range(8)]},
    {'name': 'copy', 'fn': h_copy, 'quick': [{'n': 3, 'thr': 3}, {'n': 4, 'thr': 1}, {'n': 4, 'thr': 2}, {'n': 4, 'thr': 0}], 'thorough': [{'n': 4, 'thr': 3}, {'n': 5, 'thr': 1}, {'n': 5, 'thr': 2}]},
]
