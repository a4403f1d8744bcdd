"""C05: a run stops exactly when the remaining evidence is below the tolerance."""
import math

import numpy as np
from hypothesis import strategies as st

from checks.nsgen import scripted
from vf.engine import Facet, Inconclusive, check, sut
from vf.simns import NSRun

PROPERTY = 'C05'
ASSUMPTIONS = ['Lmax is the value known to the integrator when it estimates the condition, the iteration count is that of replacements completed before that step',
               'cases whose condition falls within 1e-7 of the tolerance are set aside']
INF = math.inf


def lse(xs):
    xs = [x for x in xs if x > -INF]
    if not xs:
        return -INF
    m = max(xs)
    return m + math.log(math.fsum(math.exp(x - m) for x in xs))


def once(case):
    r = NSRun(case)
    w = r.world
    try:
        with sut('NestedSampler'):
            ns = r.make()
        with sut('nested_sampling_loop'):
            out = r.loop()
        return w, ns, out
    finally:
        r.close()


def run(case, ctx):
    w, ns, out = once(case)
    N, n = w.N, w.n
    check(w.rounds >= 1 and not w.in_round, 'the run ended after %d complete iterations (%s)', w.rounds, 'in the middle of one' if w.in_round else 'none begun')
    if abs(w.cond - case['tol']) < 1e-7:
        raise Inconclusive('stopping condition within rounding of the tolerance')
    check(w.cond <= case['tol'], 'the run stopped after %d replacements with an estimated remaining change of log-evidence %r, the tolerance is %r', w.iteration, w.cond, case['tol'])
    check(ns.iteration == w.iteration, 'iteration is %r, %d points were replaced', ns.iteration, w.iteration)
    # the final curve
    left = sorted(l for l, _, _ in w.live)
    wantL = [-INF] + [b for b, _ in w.deaths] + left
    shrink = [n / N] * w.rounds + [1.0 / (N - i) for i in range(N)]
    L, V = [float(x) for x in ns.state.logLs], [float(x) for x in ns.state.log_vols]
    check(L == wantL, 'the curve has %d log-likelihoods, expected one per iteration and one per live point left (%d), or they differ', len(L), len(wantL))
    check(len(V) == len(L) and V[0] == 0.0, 'the curve has %d volumes for %d likelihoods', len(V), len(L))
    acc = 0.0
    for k, d in enumerate(shrink):
        got = V[k] - V[k + 1]
        check(abs(got - d) <= 1e-9 * (1 + abs(V[k])), 'the volume shrinks by %r at step %d of %d, expected %r (%s)', got, k, len(shrink), d,
              'iteration' if k < w.rounds else 'live point %d of %d left' % (k - w.rounds, N))
        acc += d
    trap = lse([lse([wantL[k], wantL[k + 1]]) - math.log(2) - math.fsum(shrink[:k]) + math.log(-math.expm1(-shrink[k])) for k in range(len(shrink))]) if len(shrink) < 3000 else None
    if trap is not None:
        check(abs(float(ns.state.logZ) - trap) <= 1e-8 * (1 + abs(trap)) + 1e-9, 'final log-evidence %r, the curve integrates to %r', ns.state.logZ, trap)
    check(out[0] == ns.state.logZ == ns.logZ, 'the run returned %r, its state has %r, the sampler %r', out[0], ns.state.logZ, ns.logZ)
    # the live points left are at the end of the chain, in order
    tail = [p.logL for p in list(out[1])[len(out[1]) - N:]]
    check(tail == left, 'the live points left are not the last %d nested samples in order of likelihood', N)
    if case['second']:
        c2 = dict(case, tol=case['tol'] * case['second'])
        w2, ns2, _ = once(c2)
        check(ns2.iteration >= ns.iteration, 'tolerance %r stops after %d replacements, tolerance %r after %d', c2['tol'], ns2.iteration, case['tol'], ns.iteration)
        m = len(w.deaths)
        check(w2.deaths[:m] == w.deaths, 'a smaller tolerance changed the beginning of the run')
        ctx.label('two tolerances')
        if ns2.iteration > ns.iteration:
            ctx.label('smaller tolerance strictly longer')
    ctx.nontrivial(w.rounds >= 3 and w.deaths[0][0] > -INF)
    ctx.label('one sampler' if n == 1 else 'several samplers', 'rounds<10' if w.rounds < 10 else 'rounds<50' if w.rounds < 50 else 'rounds>=50')
    if w.deaths[-1][1] > max(left + [L[-1]]):
        ctx.label('reported maximum above every live point')


@st.composite
def cases(draw):
    c = draw(scripted(maxlive=24, tols=st.one_of(st.sampled_from([0.1, 0.5, 1.0, 2.0]), st.floats(0.01, 6))))
    c['second'] = draw(st.sampled_from([0, 0, 0.5, 0.9, 0.1]))
    return c


FACETS = [Facet('stopping', cases(), run, 2000, 40000, shards=8,
                rule='scripted answers; at every iteration the continuation, and at the end the stop, the curve and the remaining live points are compared with a reference integrator; non-trivial = at least three iterations')]
