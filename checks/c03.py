"""C03: the live-point list is always sorted and insertions return the rank (model-based)."""
from array import array

from hypothesis import strategies as st

from vf.engine import Facet, check, sut
from vf.gen import logls
from cpnest.NestedSampling import KeyOrderedList, OrderedLivePoints
from cpnest.parameter import LivePoint

PROPERTY = 'C03'
KEYS = {'identity': lambda x: x, 'neg': lambda x: -x, 'abs': abs, 'floor2': lambda x: x // 2}


def mk(i, logl):
    return LivePoint(['id'], d=array('d', [float(i)]), logL=logl)


class Model:
    """Plain list kept sorted by naive linear insertion."""

    def __init__(self, items, key):
        self.key = key
        self.items = []
        for it in items:
            self.add(it)

    def pos(self, it):
        return sum(1 for o in self.items if self.key(o) <= self.key(it))

    def add(self, it):
        p = self.pos(it)
        self.items.insert(p, it)
        return p


def agree(real, model, ident, when):
    r = [ident(x) for x in list(real)]
    m = [ident(x) for x in model.items]
    check(len(real) == len(m), '%s: length %d, expected %d', when, len(real), len(m))
    check(r == m, '%s: content %s, expected %s', when, r, m)
    for i in range(len(m)):
        check(ident(real[i]) == m[i], '%s: item %d differs by indexing', when, i)


def run_points(case, ctx):
    n = 0
    pts = []
    for l in case['init']:
        pts.append(mk(n, l)); n += 1
    ident = lambda p: (p['id'], p.logL)
    with sut('OrderedLivePoints(...)'):
        real = OrderedLivePoints(list(pts))
    model = Model(pts, lambda p: p.logL)
    agree(real, model, ident, 'after construction')
    removed = adds_after = 0
    for k, (op, arg) in enumerate(case['ops']):
        when = 'after step %d (%s %r)' % (k, op, arg)
        if op == 'add':
            p = mk(n, arg); n += 1
            with sut('insert_live_point'):
                got = real.insert_live_point(p) if case['alias'] else real.add(p)
            want = model.add(p)
            check(got == want, '%s: returned index %r, expected %d', when, got, want)
            check(real[got] is p, '%s: the point is not at the returned index', when)
            adds_after += removed > 0
            if any(o is not p and o.logL == arg for o in model.items):
                ctx.label('tie')
        elif op == 'search':
            p = mk(-1, arg)
            with sut('search'):
                got = real.search(p)
            check(got == model.pos(p), '%s: search gave %r, expected %d', when, got, model.pos(p))
        else:
            m = min(arg, len(model.items))
            with sut('remove_n_worst_points'):
                real.remove_n_worst_points(m)
            del model.items[:m]
            removed += m > 0
        agree(real, model, ident, when)
    ctx.nontrivial(adds_after > 0)
    ctx.label('add after remove' if adds_after else 'no add after remove')


def run_keys(case, ctx):
    key = KEYS[case['key']]
    items = [(v, i) for i, v in enumerate(case['init'])]
    kf = lambda t: key(t[0])
    with sut('KeyOrderedList(...)'):
        real = KeyOrderedList(iter(items) if case['it'] else items, key=kf)
    model = Model(items, kf)
    agree(real, model, lambda t: t, 'after construction')
    for k, v in enumerate(case['adds']):
        it = (v, 1000 + k)
        with sut('add'):
            pos0 = real.search(it)
            got = real.add(it)
        want = model.add(it)
        check(got == want and pos0 == want, 'add %r: search gave %r, add gave %r, expected %d', v, pos0, got, want)
        agree(real, model, lambda t: t, 'after add %d' % k)
    ctx.nontrivial(len(case['init']) + len(case['adds']) >= 3 and len(case['adds']) > 0)
    ctx.label('key ' + case['key'])


def run_default_key(case, ctx):
    with sut('KeyOrderedList(...)'):
        real = KeyOrderedList(case['init'])
    model = Model(case['init'], lambda x: x)
    agree(real, model, lambda x: x, 'after construction')
    for v in case['adds']:
        with sut('add'):
            got = real.add(v)
        want = model.add(v)
        check(got == want, 'add %r: returned %r, expected %d', v, got, want)
    agree(real, model, lambda x: x, 'at the end')
    ctx.nontrivial(len(case['adds']) > 1)


L = logls(inf=True)
op = st.one_of(st.tuples(st.just('add'), L), st.tuples(st.just('add'), L), st.tuples(st.just('search'), L),
               st.tuples(st.just('remove'), st.integers(0, 4)))
FACETS = [
    Facet('points', st.fixed_dictionaries(dict(init=st.lists(L, max_size=12), alias=st.booleans(), ops=st.lists(op, min_size=6, max_size=40))),
          run_points, 6000, 100000, shards=6,
          rule='random construct/insert/search/remove histories on live points with tied and infinite log-likelihoods, every step compared with a naive sorted list; non-trivial = at least one insertion after a removal'),
    Facet('keys', st.fixed_dictionaries(dict(key=st.sampled_from(sorted(KEYS)), it=st.booleans(), init=st.lists(st.integers(-6, 6), max_size=10),
                                             adds=st.lists(st.integers(-6, 6), max_size=12))),
          run_keys, 2000, 20000, shards=1, rule='other key functions; non-trivial = at least 3 items, at least one added'),
    Facet('default-key', st.fixed_dictionaries(dict(init=st.lists(L, max_size=10), adds=st.lists(L, max_size=10))),
          run_default_key, 1000, 10000, shards=1, rule='default key; non-trivial = at least two insertions'),
]
