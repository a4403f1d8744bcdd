"""C01: the evidence and information of a run agree with the known answer."""
import math
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vf.engine import Facet, check, known, sut
from vf.gen import seeds
from vf.samplers import Mod
from vf.sim import SimMod, simulate

PROPERTY = 'C01'
ASSUMPTIONS = ['chains long enough to decorrelate (at least 40 steps, 15 for slice samplers), pools of at least 60 points, at least ten live points per sampler',
               'ALLOW is the systematic error tolerated: nested sampling with finite chains and live points is not exactly unbiased']
INF = math.inf


def answer(case):
    """log-evidence, information and posterior means and standard deviations (in unit coordinates), by quadrature"""
    m = Mod(dict(case))
    d = case['dim']
    n = 20000 if d == 1 else 1200

    def grid(ix):
        return (np.arange(n) + 0.5) / n
    if case['like'] == 'ring' and d == 2:
        u = np.stack(np.meshgrid(grid(0), grid(1), indexing='ij'), -1).reshape(-1, 2)
        r = (u - np.array(case['centre'][:2])) / case['sig']
        logl = -0.5 * ((np.sqrt((r ** 2).sum(1)) - 1.0) / 0.3) ** 2
        logp = sum(prior1(case, u[:, i], i) for i in range(2))
        P = np.exp(logp - logp.max())
        P /= P.sum()
        top = logl.max()
        W = P * np.exp(logl - top)
        Z = W.sum()
        W /= Z
        H = float((W * (logl - top)).sum() - math.log(Z))
        mean = (W[:, None] * u).sum(0)
        return math.log(Z) + top, H, mean, np.sqrt((W[:, None] * (u - mean) ** 2).sum(0))
    logZ = H = 0.0
    mean, sd = [], []
    for i in range(d):
        u = grid(i)
        r = (u - case['centre'][i]) / case['sig']
        logl = {'gauss': -0.5 * r * r, 'cone': -abs(r), 'ramp': r, 'ring': -0.5 * ((abs(r) - 1.0) / 0.3) ** 2}[case['like']]
        P = np.exp(prior1(case, u, i))
        P /= P.sum()
        W = P * np.exp(logl)
        Z = W.sum()
        W /= Z
        logZ += math.log(Z)
        H += float((W * logl).sum() - math.log(Z))
        mu = float((W * u).sum())
        mean.append(mu)
        sd.append(math.sqrt(float((W * (u - mu) ** 2).sum())))
    return logZ, H, np.array(mean), np.array(sd)


def prior1(case, u, i):
    k = case['prior']
    if k == 'linear':
        return np.log(0.2 + u) if i == 0 else 0 * u
    return {'flat': 0 * u, 'gauss': -0.5 * ((u - 0.4) / 0.3) ** 2, 'exp': -3.0 * u}[k]


def one(case, d, rs):
    c = dict(case, rs=rs, seed=rs % 10**6, sched=dict(case['sched'], seed=rs))
    where = os.path.join(d, '%d' % rs)
    os.mkdir(where)
    try:
        with sut('run'):
            sim, cp = simulate(c, where, model=SimMod(c))
        m = cp.user
        # the program resamples with the global generator
        pos = np.asarray(cp.posterior_samples)
        x = np.array([[(row[n] - a) / w for n, (a, b), w in zip(m.names, m.bounds, m.w)] for row in pos])
        return float(cp.NS.state.logZ), float(cp.NS.state.info), x.mean(0), x.std(0), len(x)
    finally:
        shutil.rmtree(where, ignore_errors=True)


def run(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        logZ, H, mean, sd = answer(case)
        rs = case['rs']
        out = []
        todo = case['R']
        se = math.sqrt(H / case['nlive'])
        for stage in range(2):
            for _ in range(todo):
                rs += 1
                out.append(one(case, d, rs))
            R = len(out)
            tests = judge(case, out, logZ, H, mean, sd, se)
            worst = min(tests)
            check(worst[0] > 1e-10, '%s (over %d runs)', worst[1], R)
            if worst[0] > 1e-4:
                break
            todo = 2 * R
            ctx.label('escalated')
        ctx.label(case['prior'], case['like'], 'slice' if case['nsli'] == case['nthreads'] else 'mixed' if case['nsli'] else 'Metropolis', '%d samplers' % case['nthreads'])
        ctx.nontrivial(H > 0.5)
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


ALLOW = dict(z=0.5, info=0.1, mean=0.12, sd=0.08)


# the bias recorded in known_findings.txt (key ramp-metropolis) reaches about two standard deviations
ALLOW_KNOWN = dict(z=3.0, info=0.3, mean=0.4, sd=0.2)


def judge(case, out, logZ, H, mean, sd, se):
    R = len(out)
    ALLOW = ALLOW_KNOWN if case['like'] == 'ramp' and case['nsli'] < case['nthreads'] and 'ramp-metropolis' in known('C01') else globals()['ALLOW']
    n = case['nlive']
    tests = []

    def t_test(x, mu, allow, floor, text):
        m, s = x.mean(), x.std(ddof=1) / math.sqrt(R)
        dev = max(0.0, abs(m - mu) - allow)
        p = 2 * stats.t.sf(dev / max(s, floor / math.sqrt(R)), R - 1)
        tests.append((p, '%s averages %.4g, expected %.4g, standard error %.2g' % (text, m, mu, s)))
    lz = np.array([o[0] for o in out])
    z = (lz - logZ) / se
    tests.append((2 * stats.norm.sf(max(0.0, abs(z.mean()) - ALLOW['z']) * math.sqrt(R) / 1.3), 'log-evidence averages %.4g, expected %.4g +- %.2g (of one run)' % (lz.mean(), logZ, se)))
    s2 = (z ** 2).sum() / 1.3 ** 2
    tests.append((stats.chi2.sf(s2 / 1.5, R), 'log-evidence scatters by %.3g about the answer, expected %.2g' % (math.sqrt((z ** 2).mean()) * se, se)))
    info = np.array([o[1] for o in out])
    t_test(info, H, ALLOW['info'] * H + 2.0 / n, 0.5 * se, 'information')
    for i in range(case['dim']):
        t_test(np.array([o[2][i] for o in out]) / sd[i], mean[i] / sd[i], ALLOW['mean'], 0.02, 'posterior mean of component %d (in standard deviations)' % i)
        t_test(np.array([o[3][i] for o in out]) / sd[i], 1.0, ALLOW['sd'], 0.02, 'posterior standard deviation of component %d (relative)' % i)
    return tests


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 3, 4]))
    d = draw(st.integers(1, 3))
    like = draw(st.sampled_from(['gauss', 'gauss', 'cone', 'ramp'] + ['ring'] * (d < 3)))
    sig = draw(st.sampled_from({'ramp': [0.2, 0.5], 'ring': [0.2, 0.3]}.get(like, [0.05, 0.1, 0.2])))
    nsli = draw(st.sampled_from([0, n, 0, n, n // 2]))
    return dict(dim=d, bounds=[[draw(st.sampled_from([0.0, -30.0])), draw(st.sampled_from([1.0, 7.5]))] for _ in range(d)], centre=[draw(st.sampled_from([0.5, 0.35, 0.6])) for _ in range(d)], prior=draw(st.sampled_from(['flat', 'flat', 'gauss', 'exp', 'linear'])),
                like=like, sig=sig, nlive=draw(st.integers(40, 60)), poolsize=draw(st.integers(60, 100)), maxmcmc=draw(st.integers(40, 60)) if nsli < n else draw(st.integers(15, 25)),
                nthreads=n, nham=0, nsli=nsli, verbose=0, seed=1, rs=draw(seeds) % 10**6, budget=10**7,
                sched=dict(seed=0, weights=[10.0] + [1.0] * n, quantum=50), R=10)


FACETS = [Facet('runs', cases(), run, 32, 1000, shards=8, shrink=False, budget_s=400, rule='10 simulated runs of a configuration (30 if suspicious) with known evidence; non-trivial = information above 0.5')]
