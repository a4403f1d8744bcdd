"""C12: files written by a run say exactly what the run computed."""
import math
import os
import re
import shutil
import struct
import tempfile
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from checks.nsgen import scripted
from checks.c22 import system_cases
from vf.engine import Facet, check, sut
from vf.gen import seeds
from vf.samplers import Mod
from vf.sim import SimMod, simulate
from vf.simns import NSRun, World
from cpnest.model import Model

PROPERTY = 'C12'
ASSUMPTIONS = ['log-likelihoods in the chain file have the six decimals of the default format',
               'parameter names hold no white space and no path separator (names are separated by blanks in the files and used in file names)',
               'resume files left by an earlier run in the same folder are not present']
INF = math.inf
NAMES = ['x', 'mass_1', 'log(m)', 'p.q', "phi'", 'a-b', '2nd', 'return', 'file', '\\alpha', 'm[0]', 'Δt', 'E+', 'a%s', '{0}', 'e']


def names_of(draw, n):
    return draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))


# ---------------------------------------------------------------- integrator

class NamedModel(Model):
    def __init__(self, case):
        self.names = ['id'] + list(case['names'])
        self.bounds = [[-1e300, 1e300]] * len(self.names)
        self.style = case['style']

    def log_likelihood(self, p):
        return 0.0

    def header(self):
        if self.style == 'header':
            return '# my header %s' % ' '.join(self.names)
        if self.style == 'blank':
            return super().header() + ' \t \n'
        return super().header()

    def strsample(self, s):
        if self.style == 'row':
            return ','.join(float(v).hex() for v in s.values) + ';' + float(s.logL).hex()
        return super().strsample(s)


class NamedWorld(World):
    def values(self):
        self.nextid += 1
        out = [float(self.nextid)]
        for _ in self.case['names']:
            r = self.rng
            kind = r.randrange(4)
            if kind == 0:
                v = r.gauss(0, 1)
            elif kind == 1:
                v = struct.unpack('d', struct.pack('Q', r.getrandbits(64)))[0]
                if not math.isfinite(v):
                    v = 5e-324
            elif kind == 2:
                v = r.choice([0.0, -0.0, 1.0, 1e-310, 1.7976931348623157e308, 0.1, 1 / 3, 2 ** 53 + 2.0])
            else:
                v = r.uniform(-1, 1) * 10 ** r.uniform(-30, 30)
            out.append(v)
        return out


def run_integrator(case, ctx):
    model = NamedModel(case)
    world = NamedWorld(case, model)
    r = NSRun(case, model, world)
    try:
        with sut('run'):
            ns = r.make()
            stale = case['stale']
            if stale:
                for f in (ns.output_file, ns.evidence_file):
                    with open(f, 'w') as fh:
                        fh.write('junk\n' * 5000)
            r.loop()
        name = 'chain_%d_%d.txt' % (case['nlive'], case['seed'])
        files = set(os.listdir(r.dir))
        check({name, name + '_evidence.txt', 'header.txt'} <= files, 'files written: %s', sorted(files))
        check(os.path.realpath(ns.output_file) == os.path.join(r.dir, name), 'output file %r', ns.output_file)
        with open(os.path.join(r.dir, name), encoding='utf-8', newline='\n') as f:
            text = f.read()
        check(text.endswith('\n'), 'the chain file does not end with a newline')
        lines = text[:-1].split('\n')
        want = model.header().rstrip()
        check(lines[0] == want, 'the chain file has header %r, expected %r', lines[0], want)
        if case['style'] in ('plain', 'row'):
            cols = lines[0].split('\t')
            check(cols == model.names + ['logL'], 'header columns %r', cols)
        rows = lines[1:]
        check(len(rows) == len(ns.nested_samples), '%d rows for %d nested samples', len(rows), len(ns.nested_samples))
        for k, (row, p) in enumerate(zip(rows, ns.nested_samples)):
            if case['style'] == 'row':
                check(row == model.strsample(p), 'row %d is %r, the model formats it as %r', k, row, model.strsample(p))
                continue
            f = row.split()
            check(len(f) == len(model.names) + 1, 'row %d has %d columns: %r', k, len(f), row)
            v = [float(x) for x in f[:-1]]
            check(struct.pack('%dd' % len(v), *v) == bytes(p.values), 'row %d reads back as %r, the sample has %r', k, v, list(p.values))
            L = float(f[-1])
            check(L == p.logL or abs(L - p.logL) <= 0.51e-6 * 10 ** max(0, math.floor(math.log10(abs(p.logL) or 1)) + 1), 'row %d has logL %r, the sample has %r', k, L, p.logL)
        with open(ns.evidence_file) as f:
            ev = f.read().split('\n')
        check(ev[0].lstrip('#').split() == ['logZ', 'logLmax', 'H'] and len(ev) == 3 and ev[2] == '', 'the evidence file is %r', ev)
        z, lm, h = [float(x) for x in ev[1].split()]
        for what, got, exp, tol in (('log-evidence', z, ns.state.logZ, 0.51e-5), ('maximum log-likelihood', lm, ns.logLmax.value, 0.51e-5), ('information', h, ns.state.info, 0.51e-2)):
            exp = float(exp)
            check(abs(got - exp) <= tol + 1e-15 * abs(exp), 'the evidence file has %s %r, the run computed %r', what, got, exp)
        with open(os.path.join(r.dir, 'header.txt'), encoding='utf-8') as f:
            head = f.read()
        check(head.rstrip('\n').split('\t') == model.names + ['logL'], 'header.txt is %r', head)
        ctx.label(case['style'], 'files existed before' if stale else 'new files')
        ctx.nontrivial(len(rows) > 5 and len(model.names) > 2)
    finally:
        r.close()


@st.composite
def integrator_cases(draw):
    c = draw(scripted(maxlive=16))
    c['names'] = names_of(draw, draw(st.integers(1, 5)))
    c['style'] = draw(st.sampled_from(['plain', 'plain', 'row', 'header', 'blank']))
    c['stale'] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        c['base'] = draw(st.sampled_from([-1e200, 1e5, -123456.789]))
        c['cap'] = c['base'] + abs(c['base']) * 0.5
    return c


# ---------------------------------------------------------------- complete runs

class NamedSim(SimMod):
    def __init__(self, case):
        super().__init__(case)
        self.names = list(case['names'])


def table(path):
    """(names, rows) of a file of samples, read without numpy"""
    with open(path, encoding='latin1') as f:
        text = f.read()
    lines = text.split('\n')
    check(lines[0].startswith('#'), '%s has no header', path)
    check(lines[-1] == '', '%s has an unterminated last row', path)
    names = lines[0][1:].split()
    return names, [tuple(float(x) for x in l.split()) for l in lines[1:-1]]


def rows_of(a):
    return [tuple(float(v) for v in r) for r in np.atleast_1d(a).tolist()]


def is_file_of(path, a, what):
    names, rows = table(path)
    want = [n.encode('utf-8', 'replace').decode('latin1') for n in a.dtype.names]
    check(names == want or names == list(a.dtype.names) or [n.encode('latin1', 'replace') for n in a.dtype.names] == [n.encode('latin1', 'replace') for n in names], '%s: columns in the file %r, in the array %r', what, names, a.dtype.names)
    check(same_rows(rows, rows_of(a)), '%s: the file does not read back to the array returned (%d rows, %d in the array)', what, len(rows), len(a))


def same_rows(x, y):
    return len(x) == len(y) and all(struct.pack('%dd' % len(p), *p) == struct.pack('%dd' % len(q), *q) for p, q in zip(x, y))


def valid_rows(model, a, what, fresh=False):
    for r in rows_of(a):
        if fresh and r[-1] == r[-2] == -INF:
            continue         # a point sent by the integrator to populate the samplers that has not moved yet: never evaluated
        pt = Point(r[:len(model.names)])
        check(all(x < v < y for v, (x, y) in zip(pt.values, model.bounds)), '%s: %r is outside the bounds', what, r)
        check(r[-2] == model.llike(pt) and r[-1] == model.lprior(pt), '%s: row %r, the model gives %r, %r', what, r, model.llike(pt), model.lprior(pt))


class Point:
    def __init__(self, values):
        self.values = values


def run_complete(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    import cpnest.cpnest as C
    real_plot = C.CPNest.plot
    plots = []
    C.CPNest.plot = lambda self, *a, **k: plots.append(1)
    try:
        model = NamedSim(case)
        v, prior_sampling = case['verbose'], case['prior_sampling']
        at_end = {}

        def after(cp):
            # explicit calls with names of the user's choice
            for g in case['getters']:
                fn = getattr(cp, 'get_%s' % g)
                before = set(os.listdir(os.path.join(d, 'out')))
                f = 'my %s.txt' % g
                a = fn(filename=f)
                at_end[g] = (f, a, set(os.listdir(os.path.join(d, 'out'))) - before)
        with sut('run'):
            sim, cp = simulate(case, d, model=model, prior_sampling=prior_sampling, after=after)
        out = os.path.join(d, 'out')
        cols = tuple(model.names) + ('logL', 'logPrior')
        ns = cp.NS
        chain = [tuple(p.values) + (p.logL, p.logP) for p in ns.nested_samples]
        a = cp.nested_samples
        check(a.dtype.names == cols, 'nested samples have columns %r', a.dtype.names)
        check(same_rows(rows_of(a), chain), 'the array of nested samples is not the chain')
        valid_rows(model, a, 'nested samples')
        post = cp.posterior_samples
        check(post.dtype.names == cols, 'posterior samples have columns %r', post.dtype.names)
        extra = Counter(rows_of(post)) - Counter(chain)
        check(not extra, 'posterior samples that are not nested samples, or repeated: %s', list(extra)[:3])
        check(len(post) >= 1 or prior_sampling, 'no posterior samples')
        files = set(os.listdir(out))
        if v >= 2:
            is_file_of(os.path.join(out, 'nested_samples.dat'), a, 'nested_samples.dat')
            is_file_of(os.path.join(out, 'posterior.dat'), post, 'posterior.dat')
            ii = []
            if ns.insertion_indices:
                with open(os.path.join(out, 'insertion_indices.dat')) as f:
                    ii = [float(x) for x in f.read().split()]
            check(ii == [float(x) for x in ns.insertion_indices], 'insertion_indices.dat does not read back to the indices')
            check(plots, 'no plots were made')
        left = [f for f in files if re.fullmatch(r'(prior_samples|mcmc_chain)_\d+\.dat', f)]
        check(not left, 'files of the samplers are left: %s', left)
        n = case['nthreads']
        if v >= 3 or prior_sampling:
            pri = cp.prior_samples
            check(pri.dtype.names == cols, 'prior samples have columns %r', pri.dtype.names)
            check(len(pri) == n * case['maxmcmc'] + (case['nlive'] if prior_sampling else 0), '%d prior samples from %d samplers of chain length %d', len(pri), n, case['maxmcmc'])
            valid_rows(model, np.asarray(pri), 'prior samples')
            missing = Counter(chain) - Counter(rows_of(pri)) if prior_sampling else None
            check(not missing, 'points missing from the prior samples: %s', list(missing or [])[:3])
            if v >= 3:
                is_file_of(os.path.join(out, 'prior.dat'), np.asarray(pri), 'prior.dat')
            ctx.label('prior samples')
        else:
            check(set(cp.prior_samples) == set(model.names) and all(x is None for x in cp.prior_samples.values()), 'prior samples are %r', cp.prior_samples)
        if v >= 3 and not prior_sampling:
            mc = cp.mcmc_samples
            check(mc.dtype.names == cols, 'MCMC samples have columns %r', mc.dtype.names)
            check(len(mc) >= n, '%d MCMC samples from %d samplers', len(mc), n)
            valid_rows(model, np.asarray(mc), 'MCMC samples', fresh=True)
            is_file_of(os.path.join(out, 'mcmc.dat'), np.asarray(mc), 'mcmc.dat')
            ctx.label('MCMC samples')
        for g, (f, arr, new) in at_end.items():
            if g in ('prior_samples', 'mcmc_samples') and not (g == 'prior_samples' and prior_sampling):
                check(arr is None and not new, 'get_%s with nothing to return gives %r and writes %s', g, arr, new)
                continue
            check(arr.dtype.names == cols, 'get_%s has columns %r', g, arr.dtype.names)
            check(f in new and new <= {f, 'nested_samples.dat'}, 'get_%s wrote %s', g, sorted(new))
            is_file_of(os.path.join(out, f), np.asarray(arr), f)
            if g == 'nested_samples' or g == 'prior_samples':
                check(same_rows(rows_of(arr), chain), 'get_%s is not the chain', g)
            else:
                check(not Counter(rows_of(arr)) - Counter(chain), 'get_%s returns rows which are not of the chain', g)
            ctx.label('get_' + g)
        ctx.label('verbose %d' % v, 'prior sampling' if prior_sampling else 'nested sampling')
        ctx.nontrivial(len(chain) > 5)
    finally:
        C.CPNest.plot = real_plot
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def complete_cases(draw):
    c = draw(system_cases(hmc=False))
    c['verbose'] = draw(st.sampled_from([3, 3, 2, 1, 0]))
    c['names'] = names_of(draw, c['dim'])
    c['like'] = draw(st.sampled_from(['gauss', 'cone']))
    c['sched'] = dict(seed=draw(seeds), weights=[5.0] + [1.0] * c['nthreads'], quantum=10)
    c['tol'] = draw(st.sampled_from([0.5, 0.1]))
    c['budget'] = 60000
    c['prior_sampling'] = draw(st.sampled_from([False, False, True]))
    c['getters'] = draw(st.lists(st.sampled_from(['nested_samples', 'posterior_samples', 'prior_samples', 'mcmc_samples']), max_size=3, unique=True))
    return c


FACETS = [Facet('integrator', integrator_cases(), run_integrator, 1600, 40000, shards=8,
                rule='a run of the real integrator with scripted samplers, parameter values over all doubles; non-trivial = more than 5 rows and 2 parameters'),
          Facet('complete', complete_cases(), run_complete, 240, 6000, shards=8,
                rule='a complete run of CPNest with simulated processes at verbosity 0 to 3, with and without prior sampling, and explicit calls of the get_ functions; non-trivial = more than 5 nested samples')]
