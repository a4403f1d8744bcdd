"""C21: insertion indices are the fractional ranks of accepted points."""
import logging
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from scipy.stats import kstest

from checks.nsgen import scripted
from vf.engine import Facet, check, sut
from vf.simns import IdModel, NSRun, SimManager
from cpnest.NestedSampling import NestedSampler

PROPERTY = 'C21'
ASSUMPTIONS = ['among live points of equal log-likelihood the new point ranks last, as the live-point list orders them']


def ks(indices):
    """two-sided p-value for the uniform distribution on [0,1]"""
    return kstest(np.asarray(indices, dtype=float), 'uniform', args=(0, 1)).pvalue


def close(p, q):
    return abs(p - q) <= 1e-9 * max(abs(p), abs(q)) + 1e-300


def run(case, ctx):
    r = NSRun(case)
    w = r.world
    try:
        with sut('NestedSampler'):
            ns = r.make()
        with sut('nested_sampling_loop'):
            r.loop()
        got = [float(x) for x in ns.insertion_indices]
        check(len(got) == len(w.indices), '%d insertion indices recorded for %d accepted points', len(got), len(w.indices))
        for k, (a, b) in enumerate(zip(got, w.indices)):
            check(abs(a - b) <= 1e-12, 'insertion index %d is %r, the fractional rank of that point is %r', k, a, b)
            check(-1e-12 <= a <= 1 + 1e-12, 'insertion index %r', a)
        check(len(ns.rolling_p) == len(w.tests), '%d rolling tests recorded, expected one per %d replacements: %d', len(ns.rolling_p), w.N, len(w.tests))
        for p, t in zip(ns.rolling_p, w.tests):
            check(close(float(p), ks(got[:t][-w.N:])), 'rolling test after %d replacements recorded p=%r, the last %d indices give %r', t, p, w.N, ks(got[:t][-w.N:]))
        for ask in case['asks']:
            before = list(ns.insertion_indices), list(ns.rolling_p)
            fn = 'ins_%s.dat' % ask['file'] if ask['file'] else None
            with sut('check_insertion_indices'):
                ns.check_insertion_indices(rolling=ask['rolling'], filename=fn)
            check(list(ns.insertion_indices) == before[0], 'the test changed the indices')
            if ask['rolling']:
                check(len(ns.rolling_p) == len(before[1]) + 1 and close(float(ns.rolling_p[-1]), ks(got[-w.N:])), 'rolling test recorded %r, expected p=%r', ns.rolling_p[len(before[1]):], ks(got[-w.N:]))
            else:
                check(list(ns.rolling_p) == before[1], 'the final test recorded a rolling p-value')
            if fn:
                back = np.atleast_1d(np.loadtxt(os.path.join(r.dir, fn)))
                check(back.shape == (len(got),) and bool(np.all(back == np.array(got))), 'the file of insertion indices holds %d values that differ from the %d recorded', back.size, len(got))
        ctx.nontrivial(len(w.tests) >= 2 or (w.n > 1 and w.rounds > 1))
        ctx.label('one sampler' if w.n == 1 else 'several samplers', 'ties' if w.stats['tied_insert'] else 'no ties', 'tests: %s' % min(len(w.tests), 5))
    finally:
        r.close()


def run_direct(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    lines = []

    class H(logging.Handler):
        def emit(self, record):
            lines.append(record.getMessage())
    log = logging.getLogger('cpnest.NestedSampling.NestedSampler')
    h = H()
    log.addHandler(h)
    try:
        with sut('NestedSampler'):
            ns = NestedSampler(IdModel(), nlive=case['nlive'], output=d, verbose=0, seed=1, manager=SimManager(1))
        ns.insertion_indices = list(case['idx'])
        with sut('check_insertion_indices'):
            ns.check_insertion_indices(rolling=case['rolling'], filename=case['file'])
        idx = case['idx']
        if not idx:
            check(ns.rolling_p == [] and os.listdir(d) == ['header.txt'], 'a test without indices recorded something')
            return
        use = idx[-case['nlive']:] if case['rolling'] else idx
        want = kstest(np.array(use), 'uniform', args=(0, 1))
        if case['rolling']:
            check(len(ns.rolling_p) == 1 and close(float(ns.rolling_p[0]), float(want.pvalue)), 'rolling p %r, expected %r', ns.rolling_p, want.pvalue)
        else:
            check(ns.rolling_p == [], 'the final test recorded a rolling p-value')
        text = ' '.join(lines)
        check('{0:.3}'.format(float(want.pvalue)) in text and '{0:.3}'.format(float(want.statistic)) in text, 'reported %r, expected D=%r, p=%r', text, want.statistic, want.pvalue)
        if case['file']:
            back = np.atleast_1d(np.loadtxt(os.path.join(d, case['file'])))
            check(back.tolist() == [float(x) for x in idx], 'the file of insertion indices does not read back to the indices')
        ctx.nontrivial(len(idx) > case['nlive'])
        ctx.label('rolling' if case['rolling'] else 'final', 'with file' if case['file'] else 'no file')
    finally:
        log.removeHandler(h)
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def cases(draw):
    c = draw(scripted(maxlive=20, tols=st.floats(0.02, 3)))
    c['asks'] = draw(st.lists(st.fixed_dictionaries(dict(rolling=st.booleans(), file=st.one_of(st.just(''), st.sampled_from('abc')))), max_size=3))
    return c


direct = st.fixed_dictionaries(dict(
    nlive=st.integers(1, 40), rolling=st.booleans(), file=st.sampled_from([None, 'i.dat', 'out.txt']),
    idx=st.one_of(st.lists(st.floats(0, 1), max_size=120), st.lists(st.integers(0, 10).map(lambda k: k / 10), max_size=120))))

FACETS = [Facet('histories', cases(), run, 1600, 30000, shards=6,
                rule='complete scripted runs; every index compared with the rank in a reference live set, every rolling p-value recomputed; non-trivial = two rolling tests, or several samplers and iterations'),
          Facet('direct', direct, run_direct, 600, 8000, shards=2,
                rule='the diagnostic called on generated index lists; non-trivial = more indices than live points')]
