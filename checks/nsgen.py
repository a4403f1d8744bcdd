"""Generators shared by the checks that drive the integrator with scripted samplers."""
import math

from hypothesis import strategies as st

from vf.engine import check
from vf.simns import same_point


def conserved(w, ns, out=None):
    """The finished run `ns` holds exactly what the scripted samplers of world `w` sent, in order."""
    check(len(w.initial) == w.N, '%d usable initial points of %d', len(w.initial), w.N)
    check(not w.in_round, 'the run ended in the middle of an iteration')
    check(all(p.stopped for p in w.pipes), 'not every sampler was told to stop')
    check(w.manager.logLmin.value == math.inf, 'the bound is %r at the end, expected infinity', w.manager.logLmin.value)
    got = list(ns.nested_samples)
    check(out is not None and list(out[1]) == got, 'the loop did not return the nested samples')
    ids = [p['id'] for p in got]
    want = w.initial + w.accepted
    check(len(got) == w.N + w.iteration, 'the chain has %d points, expected %d initial + %d accepted', len(got), w.N, w.iteration)
    check(sorted(ids) == sorted(want), 'points lost: %s, points not accepted or duplicated: %s', sorted(set(want) - set(ids))[:5],
          sorted(set(ids) - set(want))[:5] or [i for i in set(ids) if ids.count(i) > 1][:5])
    for p in got:
        check(same_point(p, w.sent[p['id']]), 'point recorded as %r, the sampler sent %r', p, w.sent[p['id']])
    L = [p.logL for p in got]
    check(all(a <= b for a, b in zip(L, L[1:])), 'the chain is not ordered by log-likelihood')
    ref = [l for l, _, _ in w.dead] + sorted(l for l, _, _ in w.live)
    check(L == ref, 'the discarded log-likelihoods are not those of the worst points at each step')
    check(ns.iteration == w.iteration, 'iteration is %r, %d points were replaced', ns.iteration, w.iteration)


@st.composite
def scripted(draw, maxlive=24, prior=False, tols=None, verbose=(0, 0, 0, 1)):
    nthreads = draw(st.sampled_from([1, 2, 3, 1, 4, 5, 6]))
    nlive = nthreads + draw(st.integers(1, max(1, maxlive - nthreads)))
    plain = draw(st.integers(0, 4))
    if plain == 0:
        script = [0]
    else:
        # 0 accept, 1 tie with the bound, 2 below it, 3 the request itself, 4 tie with a live point, 5 tie with the best, 6 just above the bound, 7/8 unusable at the start, 9 a higher maximum is reported
        script = draw(st.lists(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]), min_size=3, max_size=25))
    return dict(nlive=nlive, nthreads=nthreads, script=script, rs=draw(st.integers(0, 10**6)), seed=draw(st.integers(0, 10**4)),
                cap=draw(st.one_of(st.floats(0.5, 8), st.just(0.0))), base=draw(st.one_of(st.floats(-20, 0), st.just(-2.0), st.floats(-1e4, -1e3))),
                ties=draw(st.booleans()), tol=draw(tols or st.one_of(st.sampled_from([0.1, 0.5, 1.0, 2.0]), st.floats(0.05, 5))),
                verbose=draw(st.sampled_from(verbose)), prior_sampling=prior)
