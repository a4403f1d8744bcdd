"""C25: samplers adapt chain length, ensemble and length scale to their own chains."""
import contextlib
import io
import math
from array import array

import numpy as np
from hypothesis import strategies as st

from checks import c06
from checks.c13 import ScriptPipe
from checks.c20 import acl_of, direct_acf, series
from vf.engine import Facet, Inconclusive, check, sut
from vf.gen import seeds
from vf.samplers import Budget, Mod, OneManager, make_sampler, seed_all
from cpnest.parameter import LivePoint

PROPERTY = 'C25'
ASSUMPTIONS = ['the autocorrelation length is that of C20; cases within rounding of its cut or of an integer are set aside']
INF = math.inf


def length(cols, window):
    """(the lengths allowed, is the cut clear) of the slowest column over the last `window` values"""
    best, ok = 0.0, True
    for x in cols:
        x = np.asarray(x[-window:], dtype=float)
        if len(x) < 2 or np.ptp(x) < 1e-9 * (1 + np.abs(x).max()):
            ok &= np.ptp(x) == 0 and len(x) > 0
            T = 1.0                      # a constant chain: 0/0
            if np.ptp(x) == 0 and float(x.mean()) != float(x[0]):
                ok = False               # the mean is not exact: rounding decides
        else:
            T, safe = acl_of(direct_acf(x), 0.01)
            ok &= safe
        best = max(best, T)
    return (int(best - 1e-6), int(best + 1e-6)), ok


def box(case):
    d = case['dim']
    return dict(dim=d, bounds=[[-1e3, 1e3]] * d, centre=[0.5] * d, sig=1.0, prior='flat', like='gauss')


def run_estimate(case, ctx):
    d = case['dim']
    model = Mod(box(case))
    with sut('sampler'):
        s = make_sampler(case['kind'], model, OneManager(), case['maxmcmc'], 60, 1)
    cols = [series(case['kinds'][i % len(case['kinds'])], case['n'], case['seed'] + i, case['a']) for i in range(d)]
    s.samples = [LivePoint(model.names, d=array('d', [float(c[k]) for c in cols])) for k in range(case['n'])]
    before = [bytes(p.values) for p in s.samples]
    want, ok = length(cols, 5 * case['maxmcmc'])
    if not ok:
        raise Inconclusive('within rounding')
    with sut('estimate_nmcmc'):
        got = s.estimate_nmcmc() if case['safety'] is None else s.estimate_nmcmc(safety=case['safety'])
    floor = 20 if case['safety'] is None else case['safety']
    want = [max(w, floor, 1) for w in want]
    check(got in want and s.Nmcmc == got, 'the chain length is %r (reported %r), the autocorrelation of the last %d of %d states gives %r', s.Nmcmc, got, 5 * case['maxmcmc'], case['n'], want)
    want = want[0]
    check(before == [bytes(p.values) for p in s.samples], 'the recorded chain was changed')
    ctx.label('floor' if want == floor else 'above the floor', 'window shorter than the chain' if case['n'] > 5 * case['maxmcmc'] else 'whole chain')
    ctx.nontrivial(want > floor)


@st.composite
def estimates(draw):
    maxmcmc = draw(st.integers(5, 40))
    return dict(dim=draw(st.integers(1, 4)), kind=draw(st.sampled_from(['mhs', 'sli'])), maxmcmc=maxmcmc, n=draw(st.integers(2, 400)),
                kinds=draw(st.lists(st.sampled_from(['white', 'ar', 'ar', 'sine', 'steps', 'ramp']), min_size=1, max_size=4)), seed=draw(seeds), a=draw(st.sampled_from([0.5, 0.9, 0.97, 0.99])),
                safety=draw(st.sampled_from([None, None, 1, 5, 40])))


def run_fly(case, ctx):
    model = Mod(box(dict(dim=1)))
    M, P = case['maxmcmc'], case['poolsize']
    with sut('sampler'):
        s = make_sampler('mhs', model, OneManager(), M, P, 1)
    check(s.Nmcmc == M // 10, 'the chain length starts at %r, maxmcmc is %d', s.Nmcmc, M)
    x = float(M // 10)
    grew = 0
    for acc in case['acc']:
        tau = P / 5.0 if case['tau'] is None else case['tau']
        x = (1 + 1 / tau) * x if acc == 0 else (1 - 1 / tau) * x + 5.0 / tau * (2.0 / acc - 1.0)
        x = min(x, float(M))
        s.sub_acceptance = acc
        with sut('estimate_nmcmc_on_the_fly'):
            got = s.estimate_nmcmc_on_the_fly() if case['tau'] is None else s.estimate_nmcmc_on_the_fly(tau=case['tau'])
        if abs(x - round(x)) < 1e-7 * (1 + abs(x)) and x != M:
            raise Inconclusive('within rounding')
        want = max(5, int(x))
        check(got == want and s.Nmcmc == want, 'after acceptance fractions %r the chain length is %r (reported %r), the moving average is %r', case['acc'], s.Nmcmc, got, x)
        grew += want > 5
    ctx.label('capped' if x == M else 'not capped', 'zero acceptance' if 0.0 in case['acc'] else 'positive acceptance')
    ctx.nontrivial(grew >= 2 and len(set(case['acc'])) > 1)


fly = st.fixed_dictionaries(dict(maxmcmc=st.integers(5, 5000), poolsize=st.integers(8, 2000), tau=st.sampled_from([None, None, None, 10.0, 300.0]),
                                 acc=st.lists(st.one_of(st.just(0.0), st.integers(1, 40).map(lambda k: k / 40.0), st.floats(0.001, 1.0)), min_size=2, max_size=60)))


def run_produce(case, ctx):
    """the main loop of a sampler: how it keeps its ensemble, chain length, record and length scale"""
    model = Mod(case)
    kind, P, M = case['kind'], case['poolsize'], case['maxmcmc']
    man = OneManager()
    seed_all(case['rs'])
    with sut('sampler'):
        s = make_sampler(kind, model, man, M, P, case['seed'])
    every = P // 4
    seen = dict(since=0, updates=0, pending=False, mu=None, frozen=None, tuned=0, steps=0)
    pool_at_reset = []
    real_set = s.proposal.set_ensemble
    mus = []
    bounds_of = [(-INF, 0)]

    def set_ensemble(e):
        if s.initialised:
            check(sorted(bytes(p.values) for p in e) == sorted(bytes(p.values) for p in s.evolution_points), 'the ensemble given to the proposals is not the pool')
            seen['since'] = 0
            seen['updates'] += 1
            seen['pending'] = True
        return real_set(e)
    s.proposal.set_ensemble = set_ensemble
    if kind == 'sli':
        real_dir = s.proposal.get_direction

        def get_direction(*a, **k):
            mus.append((k['mu'] if 'mu' in k else a[0] if a else 1.0, s.mcmc_counter))
            return real_dir(*a, **k)
        s.proposal.get_direction = get_direction

    def at_poll(n):
        """between two samples"""
        if n > 1:
            # one sample since the last poll
            steps = s.mcmc_counter - seen['counter']
            new = len(s.samples) - seen['recorded']
            want = steps if kind == 'mhs' else 1
            check(new == want, 'a sample made in %d steps added %d states to the recorded chain', steps, new)
            last = s.samples[-1]
            check(any(bytes(p.values) == bytes(last.values) for p in s.evolution_points), 'the last recorded state is not the point produced')
            check(abs(s.acceptance - s.mcmc_accepted / s.mcmc_counter) < 1e-12, 'the acceptance is %r after %d of %d steps accepted', s.acceptance, s.mcmc_accepted, s.mcmc_counter)
            done = s.mcmc_accepted - seen['accepted']
            check(0 <= done <= steps and abs(s.sub_acceptance - done / steps) < 1e-12, '%d of %d steps accepted, the acceptance of the last sample is %r', done, steps, s.sub_acceptance)
            if kind == 'mhs':
                # states that differ from the one before, from either of the points the chain can have started at
                states = [bytes(p.values) for p in s.samples[-steps:]]
                moves = sum(a != b for a, b in zip(states, states[1:]))
                ways = [moves + (states[0] != b) for b in seen['first']]
                # with duplicates in the ensemble a jump can lead nowhere and be accepted
                check(done in ways or seen['twins'] and done > min(ways), '%d of the steps of a sample changed the state (not counting the first), %d are counted as accepted', moves, done)
            if kind == 'hmc':
                check(done == 1, '%d steps of a Hamiltonian sample are counted as accepted', done)
            if kind == 'sli':
                tuning = s.mcmc_counter < 10 * P
                if not tuning:
                    check(s.mu == seen['mu'], 'the length scale went from %r to %r after %d steps, adaptation ends after %d', seen['mu'], s.mu, s.mcmc_counter, 10 * P)
                    seen['frozen'] = True
                else:
                    r = s.mu / seen['mu']
                    check(0 < s.mu < INF, 'the length scale is %r', s.mu)
                    e, c = max(1.0, s.Ne), max(1.0, s.Nc)
                    check(abs(r - 2 * e / (e + c)) < 1e-9, 'after %r expansions and %r contractions the length scale is multiplied by %r', s.Ne, s.Nc, r)
                    seen['tuned'] += 1
        if seen['pending']:
            seen['pending'] = False
            cols = np.array([list(p.values) for p in s.samples[-5 * M:]]).T
            want, ok = length(cols, 5 * M)
            if ok:
                check(s.Nmcmc in [max(20, w) for w in want], 'after the update the chain length is %r, the autocorrelation of the last %d states gives %r', s.Nmcmc, cols.shape[1], want)
        seen['since'] += 1
        check(seen['since'] <= every + 1, 'the ensemble was not updated during %d samples, the pool has %d points', seen['since'], P)
        if kind == 'sli':
            seen['mu'] = s.mu
        seen['first'] = [bytes(p.values) for p in list(s.evolution_points)[:2]]
        pool = [bytes(p.values) for p in s.evolution_points]
        seen['twins'] = len(set(pool)) < len(pool) or bool(s.producer_pipe.inbox)
        seen['accepted'] = s.mcmc_accepted
        seen['counter'], seen['recorded'] = s.mcmc_counter, len(s.samples)

    script = []

    def request(q, raising):
        def make():
            pool = sorted(s.evolution_points, key=lambda p: p.logL)
            p = pool[min(len(pool) - 1, int(q * len(pool)))]
            if raising:
                man.logLmin.value = max(man.logLmin.value, p.logL)
            return p.copy()
        return make
    for op in case['ops']:
        script.append(False if op is None else request(*op))
    script.append(None)
    man.pipe = s.producer_pipe = ScriptPipe(script, at_poll)
    try:
        with contextlib.redirect_stderr(io.StringIO()), sut('reset'):
            s.reset()
        check(len(s.samples) >= P, 'the recorded chain has %d states after initialisation with %d points', len(s.samples), P)
        if M >= 5:
            check(5 <= s.Nmcmc <= max(M, 5), 'the chain length after initialisation is %r, maxmcmc is %d', s.Nmcmc, M)
        with contextlib.redirect_stderr(io.StringIO()), sut('produce_sample'):
            s.produce_sample()
        cut = False
    except Budget:
        cut = True
    if not cut:
        check(seen['updates'] >= len(case['ops']) // every - 1, 'the ensemble was updated %d times in %d samples', seen['updates'], len(case['ops']))
    if kind == 'sli':
        late = [m for m, c in mus if c >= 10 * P]
        check(len(set(late)) <= 1, 'directions are drawn with length scales %s after the end of the adaptation', sorted(set(late))[:5])
        ctx.label('adaptation over' if late else 'adaptation going on')
    ctx.label(kind, '%d updates' % min(seen['updates'], 5), 'cut' if cut else 'complete')
    ctx.nontrivial(seen['updates'] >= 2)


@st.composite
def produces(draw):
    kind = draw(st.sampled_from(['mhs', 'sli', 'sli', 'mhs', 'hmc']))
    d = draw(st.integers(1, 3))
    q = st.floats(0, 0.15 if kind == 'hmc' else 0.8)
    ops = draw(st.lists(st.one_of(st.none(), st.tuples(q, st.booleans())), min_size=5, max_size=30))
    return dict(kind=kind, dim=d, bounds=draw(c06.bounds(d, kind == 'hmc')), centre=draw(st.lists(st.floats(0.2, 0.8), min_size=d, max_size=d)), prior=draw(st.sampled_from(['flat', 'gauss', 'linear'])),
                like=draw(st.sampled_from(['gauss', 'cone'])), sig=draw(st.sampled_from([0.3, 1.0])), poolsize=draw(st.integers(50, 55)) if kind == 'hmc' else draw(st.integers(8, 24)),
                maxmcmc=draw(st.integers(10, 20)) if kind == 'hmc' else draw(st.integers(5, 60)), seed=draw(st.integers(0, 999)), rs=draw(seeds), budget=60000, ops=ops * draw(st.sampled_from([1, 2])))


FACETS = [Facet('estimate', estimates(), run_estimate, 2000, 40000, shards=3, rule='recorded chains of known autocorrelation; non-trivial = the length exceeds the floor'),
          Facet('moving-average', fly, run_fly, 2000, 40000, shards=2, rule='sequences of acceptance fractions; non-trivial = several fractions and a length above the floor at least twice'),
          Facet('production', produces(), run_produce, 800, 16000, shards=8, rule='main loops of samplers with requests arriving or not, observed between samples; non-trivial = the ensemble was updated at least twice')]
