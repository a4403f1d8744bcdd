"""C26: Hamiltonian jumps follow reflective leap-frog dynamics with the mass of the ensemble."""
import math
from array import array
from collections import Counter, deque

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from checks.c18 import hmcs
from vf.engine import Facet, Inconclusive, check, sut
from vf.gen import seeds
from vf.samplers import Budget, Mod, proposals_for, seed_all
from cpnest.parameter import LivePoint
from cpnest import proposal as P

PROPERTY = 'C26'
ASSUMPTIONS = ['Model.force is taken as the proposals use it, as the gradient of the potential (its documentation says minus that)',
               'only the diagonal of the inverse mass enters the motion of the positions, as the code does; the normal at the likelihood bound is the one the proposal estimates']
INF = math.inf
ALPHA = 1e-10


def ensemble(case, model):
    rng = np.random.default_rng(case['rs'])
    pts = []
    for k in range(case['n']):
        p = LivePoint(model.names, d=array('d', [a + (b - a) * rng.random() for a, b in model.bounds]))
        if case.get('corr') and len(model.names) > 1:
            a, b = model.bounds[1]
            u = (p.values[0] - model.bounds[0][0]) / model.w[0]
            p[model.names[1]] = a + (b - a) * (0.7 * u + 0.3 * rng.random())
        p.logP, p.logL = model.log_prior(p), model.llike(p)
        pts.append(p)
    return pts, rng


def covariance(pts):
    X = np.array([list(p.values) for p in pts])
    Y = X - X.mean(axis=0)
    n = len(pts) if X.shape[1] == 1 else len(pts) - 1
    return Y.T @ Y / n


def gradient(model, q):
    return np.array([float(model.force(q)[n][0]) for n in model.names])


def point(model, x):
    return LivePoint(model.names, d=array('d', [float(v) for v in x]))


def mirror(model, x, p):
    for j, (l, u) in enumerate(model.bounds):
        guard = 0
        while x[j] < l or x[j] > u:
            x[j] = 2 * u - x[j] if x[j] > u else 2 * l - x[j]
            p[j] = -p[j]
            guard += 1
            if guard > 1000:
                raise Inconclusive('very long step')


def reference(model, prop, x0, p0, dt, L, inv, bound):
    """positions and momenta of the trajectory, by definition; whether a decision was within rounding"""
    out, close, hits, walls = [], False, 0, 0
    for sign in (1.0, -1.0):
        x = x0.copy()
        p = sign * p0 - 0.5 * dt * gradient(model, point(model, x))
        for _ in range(L):
            x = x + dt * p * inv
            b = x.copy()
            mirror(model, x, p)
            walls += not np.array_equal(b, x)
            q = point(model, x)
            l = model.llike(q)
            close |= abs(l - bound) < 1e-7 * (1 + abs(bound)) if bound > -INF else False
            if l > bound:
                p = p - dt * gradient(model, q)
            else:
                n = np.asarray(prop.unit_normal(q), dtype=float)
                check(abs(np.linalg.norm(n) - 1) < 1e-9, 'the normal at the bound has length %r', np.linalg.norm(n))
                p = p - 2 * np.dot(p, n) * n
                hits += 1
            out.append((x.copy(), p.copy()))
    return out, close, hits, walls


def energy(model, cov, q, p):
    return 0.5 * p @ cov @ p - model.log_prior(q)


def run_trajectory(case, ctx):
    model = Mod(case)
    pts, rng = ensemble(case, model)
    seed_all(case['seed'])
    with sut('HamiltonianProposalCycle'):
        c = proposals_for('hmc', None, model)
        c.set_ensemble(deque(pts))
    prop = c.proposals[0]
    cov = covariance(pts)
    inv = np.diag(cov)
    ls = sorted(p.logL for p in pts)
    bound = -INF if case['q'] < 0 else ls[int(case['q'] * (len(ls) - 1))]
    with sut('adaptation'):
        for _ in range(case['tuned']):
            prop.update_time_step(1.0)
        prop.update_trajectory_length(case['nmcmc'])
    visited = []
    model.hook = lambda p: visited.append(np.array(p.values, dtype=float))
    good = refl = 0
    try:
        for k in range(case['jumps']):
            old = pts[int(rng.integers(len(pts)))].copy()
            if not old.logL > bound:
                continue
            state = np.random.get_state()
            try:
                p0 = np.atleast_1d(np.array(prop.momenta_distribution.rvs(), dtype=float))
            except AttributeError:
                raise Inconclusive('no momenta distribution')
            np.random.set_state(state)
            x0 = np.array(old.values, dtype=float)
            dt, L = prop.dt, prop.L
            want, close, hits, walls = reference(model, prop, x0, p0, dt, L, inv, bound)
            if close:
                continue
            nudged = reference(model, prop, x0 * (1 + 1e-12) + 1e-13, p0 * (1 - 1e-12), dt, L, inv, bound)[0]
            del visited[:]
            with sut('get_sample'):
                new = c.get_sample(old, logLmin=bound)
            check(len(visited) == 2 * L, 'a trajectory of %d steps each way evaluates the likelihood %d times', L, len(visited))
            scale = np.array(model.w)
            tol = 1e-6
            lost = False
            for i, (x, (y, _), (z, _)) in enumerate(zip(visited, want, nudged)):
                lost = i != L and (lost or np.abs((y - z) / scale).max() > 1e-8)       # rounding grows along a trajectory
                if not lost:
                    check(np.abs((x - y) / scale).max() < tol, 'step %d %s (time step %r, momentum %r) goes to %s, reflective leap-frog dynamics goes to %s', i % L + 1, 'forward' if i < L else 'backward', dt, p0.tolist(), x.tolist(), y.tolist())
            y = np.array(new.values, dtype=float)
            check(any(np.array_equal(y, x) for x in visited[:-1]), 'the point returned, %s, is not a state of the trajectory (but the last)', y.tolist())
            good += 1
            refl += hits + walls
            ctx.label('reflected by the bound' if hits else 'bound not reached', 'reflected by a limit' if walls else 'limits not reached')
    except Budget:
        raise Inconclusive('likelihood budget')
    ctx.label('dim %d' % case['dim'], 'prior ' + model.prior)
    ctx.nontrivial(good > 0 and refl > 0)


@st.composite
def trajectories(draw):
    c = draw(hmcs())
    c.update(q=draw(st.sampled_from([-1, 0.1, 0.3])), jumps=draw(st.integers(2, 6)), tuned=draw(st.sampled_from([0, 0, 2000, 4000])), corr=draw(st.booleans()), nmcmc=draw(st.integers(2, 8)), budget=30000)
    return c


def run_choice(case, ctx):
    """which state of a given trajectory is returned, over many choices"""
    model = Mod(case)
    pts, rng = ensemble(case, model)
    seed_all(case['seed'])
    with sut('HamiltonianProposalCycle'):
        c = proposals_for('hmc', None, model)
        c.set_ensemble(deque(pts))
    prop = c.proposals[0]
    if not hasattr(prop, 'momenta_distribution'):
        raise Inconclusive('no momenta distribution')
    cov = covariance(pts)
    old = pts[int(rng.integers(len(pts)))]
    p0 = rng.multivariate_normal(np.zeros(case['dim']), np.linalg.inv(cov)) * case['push']

    class Fixed:
        def rvs(self, *a, **k):
            return p0.copy()
    prop.momenta_distribution = Fixed()
    prop.L = case['L']
    with sut('adaptation'):
        for _ in range(case['tuned']):
            prop.update_time_step(1.0)
    x0 = np.array(old.values, dtype=float)
    want, close, hits, walls = reference(model, prop, x0, p0, prop.dt, prop.L, np.diag(cov), -INF)
    H = np.array([energy(model, cov, point(model, x), p) for x, p in want[:-1]])
    w = np.exp(-(H - H.min()))
    w /= w.sum()
    counts = np.zeros(len(w), dtype=int)
    keys = [x for x, _ in want[:-1]]
    jac = []
    H0 = energy(model, cov, old, p0)
    for _ in range(case['draws']):
        with sut('get_sample'):
            new = c.get_sample(old.copy(), logLmin=-INF)
        y = np.array(new.values, dtype=float)
        d = [np.abs((x - y) / np.array(model.w)).max() for x in keys]
        i = int(np.argmin(d))
        check(d[i] < 1e-6, 'the point returned, %s, is not a state of the trajectory', y.tolist())
        counts[i] += 1
        if abs(c.log_J - min(0.0, H0 - H[i])) > 1e-6 * (1 + abs(H[i])):
            # two states at the same place
            near = [j for j in range(len(d)) if d[j] < 1e-6]
            check(any(abs(c.log_J - min(0.0, H0 - H[j])) <= 1e-6 * (1 + abs(H[j])) for j in near), 'the log ratio is %r, the energies %r and %r give %r', c.log_J, H0, H[i], min(0.0, H0 - H[i]))
    # chi-square over states grouped to an expectation of at least 8
    order = np.argsort(w)
    o, e, oo, ee = 0, 0.0, [], []
    for i in order:
        o += counts[i]
        e += w[i] * case['draws']
        if e >= 8:
            oo.append(o), ee.append(e)
            o, e = 0, 0.0
    if ee:
        oo[-1] += o
        ee[-1] += e
    if len(ee) >= 2:
        chi = float(((np.array(oo) - ee) ** 2 / np.array(ee)).sum())
        pv = stats.chi2.sf(chi, len(ee) - 1)
        check(pv > ALPHA, 'states of a trajectory with probabilities %s (by energy) are returned %s times in %d', np.round(w[order], 4).tolist(), counts[order].tolist(), case['draws'])
    ctx.label('dim %d' % case['dim'], 'prior ' + model.prior, 'uneven' if w.max() > 2 * w.min() else 'even')
    ctx.nontrivial(len(ee) >= 3 and w.max() > 2 * w.min())


@st.composite
def choices(draw):
    c = draw(hmcs())
    c.update(q=-1, push=draw(st.sampled_from([0.5, 1.0, 2.0])), L=draw(st.integers(3, 12)), draws=400, tuned=draw(st.sampled_from([0, 2000, 4000])), corr=draw(st.booleans()), budget=10**9)
    return c


def run_mass(case, ctx):
    model = Mod(case)
    pts, rng = ensemble(case, model)
    seed_all(case['seed'])
    with sut('HamiltonianProposalCycle'):
        c = proposals_for('hmc', None, model)
        c.set_ensemble(deque(pts))
    prop = c.proposals[0]
    d = case['dim']
    if case['again']:
        more, _ = ensemble(dict(case, rs=case['rs'] + 1, corr=not case['corr']), model)
        with sut('set_ensemble'):
            c.set_ensemble(deque(more))
        pts = more
    cov = covariance(pts)
    mass = np.linalg.inv(cov)
    # kinetic energies differ by those of the mass
    ps = [rng.multivariate_normal(np.zeros(d), mass) for _ in range(4)]
    for a in ps:
        for b in ps:
            with sut('kinetic_energy'):
                got = prop.kinetic_energy(a) - prop.kinetic_energy(b)
            want = 0.5 * (a @ cov @ a - b @ cov @ b)
            check(abs(got - want) < 1e-7 * (1 + abs(want) + 0.5 * a @ cov @ a), 'kinetic energies of %s and %s differ by %r, with the covariance of the ensemble by %r', a.tolist(), b.tolist(), got, want)
        q, r = pts[0], pts[1]
        with sut('hamiltonian'):
            got = prop.hamiltonian(a, q) - prop.hamiltonian(a, r)
        want = model.log_prior(r) - model.log_prior(q)
        check(abs(got - want) < 1e-9 * (1 + abs(want)) + 1e-9 * a @ cov @ a, 'energies of two points with the same momentum differ by %r, their log-priors by %r', got, want)
    with sut('momenta'):
        m = np.array([np.atleast_1d(prop.momenta_distribution.rvs()) for _ in range(1500)])
    # whitened momenta are standard normal
    z = m @ np.linalg.cholesky(cov)
    n = len(z)
    check(bool((np.abs(z.mean(axis=0)) < 8 / math.sqrt(n)).all()), 'the mean of the momenta is %s', m.mean(axis=0).tolist())
    S = z.T @ z / n
    check(bool((np.abs(S - np.eye(d)) < 9 * math.sqrt(2 / n)).all()), 'momenta have the covariance %s, the inverse covariance of the ensemble is %s', (m.T @ m / n).tolist(), mass.tolist())
    # step and length
    w = np.array(model.w)
    L0 = 10 + int((w.max() / w.min()) * d ** 0.25)
    ratio = (w.max() / w.min()) * d ** 0.25
    s = 1.0
    first = True
    for acc, nm in case['accs']:
        with sut('update_time_step'):
            prop.update_time_step(acc)
        s *= math.exp(0.001 * (acc - 0.5))
        if abs(ratio - round(ratio)) > 1e-9 or ratio == 1.0:
            want = s / L0 * w.min() / w.max()
            check(abs(prop.dt - want) < 1e-9 * want, 'after acceptances %r the time step is %r, expected %r', case['accs'], prop.dt, want)
            Ls = []
            for _ in range(12):
                with sut('update_trajectory_length'):
                    prop.update_trajectory_length(nm)
                Ls.append(prop.L)
            check(all(L0 + nm <= x < L0 + 5 * nm for x in Ls), 'trajectories have lengths %s with chain length %d and base %d', Ls, nm, L0)
            check(len(set(Ls)) > 1 or nm < 5, 'trajectories always have the same length %d', Ls[0])
    ctx.label('dim %d' % d, 'correlated' if case['corr'] != bool(case['again']) else 'uncorrelated')
    ctx.nontrivial(d > 1)


@st.composite
def masses(draw):
    c = draw(hmcs())
    c.update(corr=draw(st.booleans()), again=draw(st.booleans()), accs=draw(st.lists(st.tuples(st.sampled_from([0.0, 1.0, 0.5, 0.3, 0.9]), st.integers(1, 30)), min_size=1, max_size=10)))
    return c


def run_reverse(case, ctx):
    """unconstrained trajectories can be followed back"""
    model = Mod(case)
    pts, rng = ensemble(case, model)
    seed_all(case['seed'])
    with sut('LeapFrog'):
        prop = P.LeapFrog(model=model)
        prop.set_ensemble(pts)
    cov = covariance(pts)
    q0 = pts[0].copy()
    x0 = bytes(q0.values)
    p0 = rng.multivariate_normal(np.zeros(case['dim']), np.linalg.inv(cov)) * case['push']
    keep = p0.copy()
    prop.L = case['L']
    with sut('evolve_trajectory'):
        for _ in range(case['tuned']):
            prop.update_time_step(1.0)
        q1, p1 = prop.evolve_trajectory(p0, q0)
    check(bytes(q0.values) == x0 and np.array_equal(p0, keep), 'the start of the trajectory was changed')
    check(model.in_bounds(q1), 'the trajectory ends out of bounds: %r, bounds %r', list(q1.values), model.bounds)
    with sut('evolve_trajectory'):
        q2, p2 = prop.evolve_trajectory(p1, q1)
        # how rounding grows, there and back
        n1, m1 = prop.evolve_trajectory(p0 * (1 - 1e-12), point(model, np.array(q0.values) * (1 + 1e-12)))
        n2, _ = prop.evolve_trajectory(np.asarray(p1) * (1 - 1e-12), point(model, np.array(q1.values) * (1 + 1e-12)))
    if any(abs(a - b) > 1e-8 * w for x, y in ((q1, n1), (q2, n2)) for a, b, w in zip(x.values, y.values, model.w)) or np.abs(np.asarray(m1) - p1).max() > 1e-8 * (1 + np.abs(p1).max()):
        raise Inconclusive('unstable trajectory')
    d = max(abs(a - b) / w for a, b, w in zip(q2.values, q0.values, model.w))
    check(d < 1e-6, 'the trajectory from %s does not come back: %s', list(q0.values), list(q2.values))
    check(np.abs(np.asarray(p2) - p0).max() <= 1e-6 * (1 + np.abs(p0).max()), 'momentum %s comes back as %s', p0.tolist(), list(p2))
    if case['dim'] == 1 and case['prior'] in ('gauss', 'exp') and not case['tuned']:
        e0, e1 = energy(model, cov, q0, p0), energy(model, cov, q1, np.asarray(p1))
        check(abs(e1 - e0) < 0.5 + 0.1 * abs(e0), 'the energy goes from %r to %r in %d small steps', e0, e1, prop.L)
    ctx.label('dim %d' % case['dim'], 'prior ' + case['prior'])
    ctx.nontrivial(bytes(q1.values) != x0)


FACETS = [Facet('trajectory', trajectories(), run_trajectory, 600, 12000, shards=4, rule='every position visited is compared with reference reflective leap-frog dynamics; non-trivial = a trajectory compared and a reflection seen'),
          Facet('choice', choices(), run_choice, 160, 3000, shards=4, rule='400 choices from one trajectory against exp(-energy), chi-square p<1e-10; non-trivial = uneven probabilities'),
          Facet('mass', masses(), run_mass, 300, 4000, shards=2, rule='energies, momenta and step sizes against the covariance of the ensemble; non-trivial = more than one dimension'),
          Facet('reverse', choices(), run_reverse, 600, 12000, shards=2, rule='unconstrained trajectories followed forth and back; non-trivial = the trajectory moved')]
