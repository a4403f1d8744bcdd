"""C28: the diagnostic plots show the samples of the run."""
import math
import os
import re
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks.c12 import NAMES
from vf.engine import Facet, check, sut
from vf.gen import seeds
from vf.sim import SimMod, simulate

PROPERTY = 'C28'
ASSUMPTIONS = ['what a plot shows is what the matplotlib figure holds when it is saved; corner plots need the package corner, which is not installed']


class Saved:
    """What figures hold when they are saved."""

    def __init__(self, render):
        self.render, self.plots, self.order = render, {}, []

    def __enter__(self):
        from matplotlib.figure import Figure
        self.cls, self.real = Figure, Figure.savefig
        me = self

        def savefig(fig, fname, *a, **k):
            d = dict(lines=[], hists=[], titles=[], labels=[])
            for ax in fig.axes:
                for l in ax.lines:
                    d['lines'].append((np.array(l.get_xdata(), float), np.array(l.get_ydata(), float), l.get_label()))
                for p in ax.patches:
                    d['hists'].append((np.array(p.get_xy(), float) if hasattr(p, 'get_path') and hasattr(p, 'set_closed') else None, p.get_label()))
                d['titles'].append(ax.get_title())
                d['labels'].append((ax.get_xlabel(), ax.get_ylabel()))
            me.plots[str(fname)] = d
            me.order.append(str(fname))
            if me.render:
                return me.real(fig, fname, *a, **k)
            with open(fname, 'wb') as f:
                f.write(b'x')
        Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        self.cls.savefig = self.real
        import matplotlib.pyplot as plt
        plt.close('all')


def same_histogram(xy, x, what):
    """the outline xy (of a density histogram) is that of the data x"""
    check(xy is not None, '%s: no outline', what)
    check(np.isfinite(xy).all(), '%s: the outline is not finite', what)
    check(len(x) > 0, '%s: a histogram of no data', what)
    # vertices come in pairs at each edge
    top = xy if len(xy) % 2 == 0 else xy[:-1]
    xs, ys = top[:, 0], top[:, 1]
    edges = np.unique(xs)
    k = len(edges) - 1
    check(k >= 1, '%s: no bins', what)
    heights = np.zeros(k)
    for i in range(len(xs) - 1):
        if xs[i + 1] > xs[i]:
            j = int(np.searchsorted(edges, xs[i]))
            heights[j] = max(heights[j], ys[i])
    lo, hi = float(np.min(x)), float(np.max(x))
    tol = 1e-9 * max(1.0, abs(lo), abs(hi), hi - lo)
    check(edges[0] <= lo + tol and edges[-1] >= hi - tol, '%s: the histogram covers [%r, %r], the data [%r, %r]', what, edges[0], edges[-1], lo, hi)
    w = np.diff(edges)
    area = float((heights * w).sum())
    check(abs(area - 1) < 1e-6, '%s: the area of the histogram is %r', what, area)
    counts = heights * w * len(x)
    # data next to an edge may fall on either side of it
    low = np.array([((x > a + tol) & (x < b - tol)).sum() for a, b in zip(edges, edges[1:])])
    high = np.array([((x >= a - tol) & (x <= b + tol)).sum() for a, b in zip(edges, edges[1:])])
    check(((counts >= low - 1e-3) & (counts <= high + 1e-3)).all(), '%s: the bins hold %s of %d points, counted %s', what, np.round(counts, 3).tolist()[:8], len(x), low.tolist()[:8])


def same_line(d, x, y, what):
    got = [l for l in d['lines'] if len(l[1]) == len(y) and np.array_equal(l[1], np.asarray(y, float)) and (x is None and (np.diff(l[0]) > 0).all() or x is not None and np.array_equal(l[0], np.asarray(x, float)))]
    check(got, '%s: no line through the %d values (lines of %s points)', what, len(y), [len(l[1]) for l in d['lines']])


def finite(a):
    a = np.asarray(a, float).ravel()
    return a[np.isfinite(a)]


def hists(d, want, what):
    got = {l: xy for xy, l in d['hists'] if not l.startswith('_')}
    check(sorted(got) == sorted(want), '%s: histograms of %s, expected %s', what, sorted(got), sorted(want))
    for l, x in want.items():
        same_histogram(got[l], x, '%s (%s)' % (what, l))


# ---------------------------------------------------------------- the functions

def run_functions(case, ctx):
    from cpnest import plot
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    rng = np.random.RandomState(case['rs'])
    import matplotlib.pyplot as plt
    plt.close('all')
    open_before = plt.get_fignums()
    try:
        with Saved(case['render']) as s:
            name = case['name']
            path = os.path.join(d, 'out.pdf')

            def data(n, kind):
                x = rng.normal(case['loc'], case['scale'], size=n)
                if kind == 'grid':
                    x = np.round(x / case['scale'] * 2) / 2 * case['scale']
                if kind == 'constant':
                    x = np.full(n, case['loc'])
                if kind == 'dead':
                    x = np.where(rng.uniform(size=n) < 0.3, -math.inf, x)
                    x[0] = case['loc']
                return x
            x = data(case['n'], case['kinds'][0])
            if case['fn'] == 'chain':
                with sut('plot_chain'):
                    plot.plot_chain(x, name=name, filename=path)
                same_line(s.plots[path], None, x, 'plot_chain')
                check(any(b == name for a, b in s.plots[path]['labels']), 'plot_chain: the axis is called %s, not %r', s.plots[path]['labels'], name)
            elif case['fn'] == 'hist':
                x = finite(x)
                pri = data(case['others'][0], case['kinds'][1]) if case['others'][0] else None
                mc = data(case['others'][1], case['kinds'][2]) if case['others'][1] else None
                with sut('plot_hist'):
                    plot.plot_hist(x, name=name, prior_samples=pri, mcmc_samples=mc, filename=path)
                want = dict(posterior=x)
                if pri is not None:
                    want['prior'] = finite(pri)
                if mc is not None:
                    want['mcmc'] = finite(mc)
                hists(s.plots[path], want, 'plot_hist')
                check(any(a == name for a, b in s.plots[path]['labels']), 'plot_hist: the axis is called %s, not %r', s.plots[path]['labels'], name)
            else:
                x = rng.uniform(size=case['n']) ** case['power']
                with sut('plot_indices'):
                    plot.plot_indices(list(x), filename=path)
                check(len(s.plots[path]['hists']) == 1, 'plot_indices: %d histograms', len(s.plots[path]['hists']))
                same_histogram(s.plots[path]['hists'][0][0], x, 'plot_indices')
                check(any((l[1] == 1).all() for l in s.plots[path]['lines']), 'plot_indices: the uniform density is not drawn')
            check(s.order == [path] and os.path.getsize(path) > 0, 'files %s', s.order)
            check(plt.get_fignums() == open_before, 'figures are left open')
        ctx.label(case['fn'], 'rendered' if case['render'] else 'not rendered')
        ctx.nontrivial(case['n'] > 50)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def function_cases():
    kind = st.sampled_from(['normal', 'normal', 'grid', 'constant', 'dead'])
    return st.fixed_dictionaries(dict(fn=st.sampled_from(['chain', 'hist', 'hist', 'indices']), n=st.one_of(st.integers(1, 12), st.integers(50, 700), st.integers(2000, 6000)), rs=seeds, name=st.sampled_from(NAMES),
                                      loc=st.floats(-100, 100), scale=st.floats(0.01, 100), kinds=st.tuples(kind.filter(lambda k: k != 'dead'), kind, kind), others=st.tuples(st.sampled_from([0, 1, 30, 400]), st.sampled_from([0, 1, 30, 400])),
                                      power=st.floats(0.3, 3), render=st.sampled_from([False, False, False, True])))


# ---------------------------------------------------------------- complete runs

def run_program(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        m = SimMod(case)
        m.names = list(case['names'])
        with Saved(case['render']) as s:
            with sut('run'):
                sim, cp = simulate(case, d, model=m, prior_sampling=case['prior_sampling'])
        out = os.path.join(d, 'out')
        got = {os.path.relpath(os.path.realpath(os.path.join(out, f)), out): v for f, v in s.plots.items()}
        cols = list(case['names']) + ['logL', 'logPrior']
        v = case['verbose']
        want = set()
        if v >= 2:
            want |= {'nschain_%s.pdf' % c for c in cols}
            if not case['prior_sampling']:
                want |= {'posterior_%s.pdf' % c for c in cols} | {'insertion_indices.pdf', 'logXlogL.png'}
        check(set(got) == want, 'plots %s, expected %s', sorted(got), sorted(want))
        for f in want:
            check(os.path.exists(os.path.join(out, f)), 'there is no file %s', f)
        for f, g in got.items():
            if f.startswith('nschain_'):
                c = f[len('nschain_'):-4]
                same_line(g, None, np.asarray(cp.nested_samples[c], float).ravel(), f)
            elif f.startswith('posterior_'):
                c = f[len('posterior_'):-4]
                w = dict(posterior=np.asarray(cp.posterior_samples[c], float).ravel())
                if v >= 3:
                    w['prior'], w['mcmc'] = finite(cp.prior_samples[c]), finite(cp.mcmc_samples[c])
                hists(g, w, f)
            elif f == 'insertion_indices.pdf':
                same_histogram(g['hists'][0][0], np.asarray(cp.NS.insertion_indices, float), f)
            elif f == 'logXlogL.png':
                state = cp.NS.state
                same_line(g, state.log_vols, state.logLs, f)
                t = ' '.join(g['titles'])
                num = [float(x) for x in re.findall(r'[-+]?\d+(?:\.\d+)?', t)]
                for what, val in (('log-evidence', state.logZ), ('information in bits', state.info / math.log(2))):
                    check(any(abs(x - val) <= 0.0051 for x in num), '%s: the title %r does not give the %s %r', f, t, what, float(val))
        ctx.label('verbose %d' % v, 'prior sampling' if case['prior_sampling'] else 'nested sampling', case['like'])
        ctx.nontrivial(v >= 2)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def program_cases(draw):
    n = draw(st.integers(1, 3))
    nsli = draw(st.integers(0, n))
    d = draw(st.integers(1, 2))
    return dict(dim=d, bounds=[[0.0, 1.0]] * d, centre=[0.5] * d, prior='flat', like=draw(st.sampled_from(['gauss', 'dead'])), sig=0.3, nthreads=n, nham=0, nsli=nsli, poolsize=20, maxmcmc=draw(st.integers(5, 20)),
                names=draw(st.lists(st.sampled_from(NAMES), min_size=d, max_size=d, unique=True)), nlive=draw(st.integers(8, 25)), verbose=draw(st.sampled_from([2, 3, 3, 2, 1, 0])), seed=draw(st.integers(1, 999)),
                rs=draw(seeds), budget=2 * 10**5, prior_sampling=draw(st.sampled_from([False, False, False, True])), render=draw(st.sampled_from([False, False, True])),
                sched=dict(seed=draw(seeds), weights=[4.0] + [1.0] * n, quantum=15))


FACETS = [Facet('functions', function_cases(), run_functions, 400, 6000, shards=8, rule='one plot function, generated data, the figure as saved compared with the data; non-trivial = more than 50 points'),
          Facet('program', program_cases(), run_program, 64, 1500, shards=8, rule='complete simulated runs with plots; non-trivial = verbosity at least 2')]
