"""C18: jump proposals respect the ensemble and report a consistent proposal ratio."""
import itertools
import math
import random
from array import array
from collections import deque

import numpy as np
from hypothesis import strategies as st
from scipy.stats import binomtest, kstest

from vf.engine import Facet, Inconclusive, check, sut
from vf.gen import parnames, seeds
from vf.samplers import Budget, Mod, proposals_for, seed_all
from cpnest import proposal as P
from cpnest.parameter import LivePoint

PROPERTY = 'C18'
ASSUMPTIONS = ['the starting point is not itself an object of the ensemble (samplers pass a copy)',
               'Hamiltonian jumps get ensembles of at least 60 points with distinct likelihoods',
               'statistical decisions at p < 1e-11']
ALPHA = 1e-11


def make_points(case):
    rng = np.random.default_rng(case['rs'])
    d, n = case['dim'], case['n']
    x = rng.normal(size=(n + 1, d))
    mixing = rng.normal(size=(d, d)) if case['corr'] else np.eye(d)
    scale = np.array([case['scales'][i % len(case['scales'])] for i in range(d)])
    x = (x @ mixing.T) * scale + np.array(case['offset'][:d])
    names = parnames(d)
    pts = [LivePoint(names, d=array('d', row.tolist()), logL=float(rng.normal()), logP=0.0) for row in x]
    return names, pts[:n], pts[n]


def arr(p):
    return np.array(p.values)


def snap(ens):
    return [(bytes(p.values), p.logL, p.logP, tuple(p.names)) for p in ens]


def scale_of(pts, old):
    return max(1e-300, float(np.abs(np.array([arr(p) for p in pts + [old]])).max()))


def run_jump(case, ctx):
    names, ens, old = make_points(case)
    kind = case['kind']
    A = np.array([arr(p) for p in ens])
    n, d = A.shape
    container = deque(ens, maxlen=n) if case['deque'] else list(ens)
    prop = dict(walk=P.EnsembleWalk, stretch=P.EnsembleStretch, de=P.DifferentialEvolution, eigen=P.EnsembleEigenVector,
                sdiff=P.EnsembleSliceDifferential, sgauss=P.EnsembleSliceGaussian, scorr=P.EnsembleSliceCorrelatedGaussian)[kind]()
    before = snap(ens)
    seed_all(case['seed'])
    with sut('set_ensemble'):
        prop.set_ensemble(container)
    check(snap(container) == before, 'set_ensemble changed the ensemble')
    x0 = arr(old)
    size = scale_of(ens, old)
    eps = 1e-9 * size
    spread = A.std(axis=0).max()
    if kind == 'eigen':
        cov = np.atleast_2d(np.cov(A.T)) if d > 1 else np.array([[np.var(A[:, 0])]])
        ew, ev = np.linalg.eigh(cov)
        gaps = np.diff(ew)
        distinct = d == 1 or bool(np.all(gaps > 1e-6 * ew[-1]))
    used = set()
    z_eig = []
    for k in range(case['jumps']):
        start = old.copy()
        if kind in ('sdiff', 'sgauss', 'scorr'):
            with sut('get_direction'):
                st1 = random.getstate(), np.random.get_state()
                v = prop.get_direction(mu=case['mu'])
                random.setstate(st1[0])
                np.random.set_state(st1[1])
                u = prop.get_direction(mu=1.0)
            vec = arr(v) if isinstance(v, LivePoint) else np.array(v, dtype=float)
            one = arr(u) if isinstance(u, LivePoint) else np.array(u, dtype=float)
            check(vec.shape == (d,) and bool(np.all(np.isfinite(vec))), 'direction %r for %d parameters', vec, d)
            check(bool(np.all(np.abs(vec - case['mu'] * one) <= 1e-9 * (np.abs(vec) + size * case['mu']))), 'the direction is not proportional to the length scale: %r for mu=%r, %r for mu=1', vec, case['mu'], one)
            check(prop.log_J == 0.0, 'a direction with log ratio %r', prop.log_J)
            if kind == 'sdiff':
                D = A[:, None, :] - A[None, :, :]
                r = np.abs(D - one).max(axis=2)
                np.fill_diagonal(r, np.inf)
                check(r.min() <= eps, 'the direction is not the difference of two members of the ensemble')
            if kind == 'sgauss':
                check(abs(np.linalg.norm(one) - 1) < 1e-9, 'the direction has length %r', np.linalg.norm(one))
            continue
        with sut('get_sample'):
            new = prop.get_sample(start)
        check(isinstance(new, LivePoint) and list(new.names) == names and len(new.values) == d, 'the jump returned %r', new)
        y = arr(new)
        check(bool(np.all(np.isfinite(y))), 'the jump went to %r', y)
        check(snap(container) == before, 'the jump changed the ensemble')
        dx = y - x0
        if kind == 'stretch':
            found = False
            for i in range(n):
                b = x0 - A[i]
                nb = float(b @ b)
                if nb == 0:
                    continue
                z = float((y - A[i]) @ b) / nb
                if np.abs(y - A[i] - z * b).max() <= eps and 0.5 - 1e-6 <= z <= 2 + 1e-6:
                    # the factor is only known to the precision of the point
                    tol = 1e-6 + d * eps / math.sqrt(nb) * 10
                    if abs(prop.log_J - d * math.log(z)) <= tol:
                        found = True
                        used.add(i)
                        break
            check(found, 'stretch from %r to %r with log ratio %r: no member of the ensemble is on that line with a factor in [1/2,2] and that ratio', x0, y, prop.log_J)
        elif kind == 'de':
            check(prop.log_J == 0.0, 'differential evolution with log ratio %r', prop.log_J)
            D = (A[:, None, :] - A[None, :, :]).reshape(-1, d)
            nn = (D * D).sum(axis=1)
            with np.errstate(all='ignore'):
                g = (D @ dx) / nn
            ok = (nn > 0) & (np.abs(g - 1) < 2e-3)
            res = np.abs(dx - g[:, None] * D).max(axis=1)
            check(bool(np.any(ok & (res <= eps))), 'the jump %r is not (nearly) the difference of two members of the ensemble', dx)
        elif kind == 'eigen':
            check(prop.log_J == 0.0, 'eigenvector jump with log ratio %r', prop.log_J)
            if distinct:
                c = ev.T @ dx
                i = int(np.argmax(np.abs(c) / np.sqrt(np.abs(ew) + 1e-300)))
                rest = dx - c[i] * ev[:, i]
                check(np.abs(rest).max() <= 1e-6 * abs(c[i]) + eps + 1e-7 * math.sqrt(abs(ew[-1])), 'the jump %r is not along an eigenvector of the covariance of the ensemble', dx)
                used.add(i)
                if ew[i] > 1e-12 * ew[-1] and math.sqrt(ew[i]) > 1e-4 * size:
                    z_eig.append(c[i] / math.sqrt(ew[i]))
        elif kind == 'walk':
            check(prop.log_J == 0.0, 'walk with log ratio %r', prop.log_J)
            if d >= 3 and n <= 7:
                best = np.inf
                for t in itertools.combinations(range(n), 3):
                    T = A[list(t)] - A[list(t)].mean(axis=0)
                    coef, *_ = np.linalg.lstsq(T[:2].T, dx, rcond=None)
                    best = min(best, float(np.abs(T[:2].T @ coef - dx).max()))
                check(best <= 1e-7 * size, 'the walk %r is not a combination of deviations of three members from their mean (nearest is %r away)', dx, best)
                ctx.label('walk plane checked')
    if len(z_eig) >= 100:
        sd = np.array(z_eig)
        p = kstest(sd, 'norm').pvalue
        check(p > ALPHA, 'eigenvector jumps are not normal with the standard deviation of the ensemble (p=%.2g, mean %.3f, sd %.3f)', p, sd.mean(), sd.std())
        ctx.label('eigenvector sizes tested')
    if kind == 'eigen' and distinct and case['jumps'] >= 60:
        check(len(used) == d, 'only eigenvectors %s of %d used in %d jumps', sorted(used), d, case['jumps'])
    check(snap(container) == before, 'the ensemble changed')
    ctx.nontrivial(case['jumps'] >= 2 and n >= 4)
    ctx.label(kind, 'dim %d' % d)


@st.composite
def jumps(draw):
    kind = draw(st.sampled_from(['walk', 'walk', 'stretch', 'stretch', 'de', 'eigen', 'eigen', 'sdiff', 'sgauss', 'scorr']))
    d = draw(st.integers(1, 6))
    return dict(kind=kind, dim=d, n=draw(st.one_of(st.integers(4, 7), st.integers(max(4, d + 2), 40))), corr=draw(st.booleans()), rs=draw(seeds), seed=draw(seeds),
                scales=draw(st.lists(st.sampled_from([1.0, 1.0, 10.0, 0.1, 1e-3, 1e5]), min_size=1, max_size=d)), offset=[draw(st.sampled_from([0.0, 1.0, -5.0, 30.0])) for _ in range(d)],
                deque=draw(st.booleans()), mu=draw(st.sampled_from([1.0, 0.5, 3.0, 1e-2])), jumps=draw(st.sampled_from([3, 10, 300] if kind == 'eigen' else [3, 10, 25])))


def run_moments(case, ctx):
    """mean and covariance of the jumps over many draws"""
    names, ens, old = make_points(case)
    A = np.array([arr(p) for p in ens])
    n, d = A.shape
    kind = case['kind']
    S = np.atleast_2d(np.cov(A.T))
    prop = dict(walk=P.EnsembleWalk, de=P.DifferentialEvolution, eigen=P.EnsembleEigenVector)[kind]()
    seed_all(case['seed'])
    with sut('set_ensemble'):
        prop.set_ensemble(ens)
    m = case['m']
    x0 = arr(old)
    J = np.empty((m, d))
    for k in range(m):
        with sut('get_sample'):
            J[k] = arr(prop.get_sample(old.copy())) - x0
    # walk: three deviations with unit normal factors: E = 2S; differential evolution: E = 2S; eigenvector: S/d
    want = dict(walk=2.0, de=2.0, eigen=1.0 / d)[kind]
    rng = np.random.default_rng(case['rs'] + 1)
    for u in list(np.eye(d)) + [rng.normal(size=d) for _ in range(2)]:
        t = J @ u
        v = float(u @ S @ u)
        if v <= 0:
            continue
        check(abs(t.mean()) <= 9 * t.std() / math.sqrt(m) + 1e-9 * scale_of(ens, old), '%s: the mean jump along %r is %r, its standard error %r', kind, u, t.mean(), t.std() / math.sqrt(m))
        q = t * t
        tol = 9 * q.std() / math.sqrt(m) + (0.3 * want * v if n < 10 else 0.15 * want * v) * (1 if kind == 'eigen' else 0.02)
        check(abs(q.mean() - want * v) <= tol, '%s: the variance of the jump along %r is %r, the ensemble gives %r', kind, u, q.mean(), want * v)
    ctx.nontrivial(True)
    ctx.label(kind, 'dim %d' % d)


moments = st.fixed_dictionaries(dict(kind=st.sampled_from(['walk', 'de', 'eigen']), dim=st.integers(1, 4), n=st.integers(6, 40), corr=st.booleans(), rs=seeds, seed=seeds,
                                     scales=st.lists(st.sampled_from([1.0, 10.0, 0.1]), min_size=1, max_size=4), offset=st.just([0.0, 1.0, -5.0, 3.0]), deque=st.just(False), m=st.just(3000)))


class Stub(P.EnsembleProposal):
    def __init__(self, k, log):
        self.k, self.log_J, self.log = k, 0.125 * (k + 1), log
        self.given = None

    def set_ensemble(self, e):
        super(Stub, self).set_ensemble(e)
        self.given = e

    def get_sample(self, old, **kw):
        self.log.append((self.k, kw))
        old['a'] = float(self.k)
        self.log_J = 0.125 * (self.k + 1) + 0.001 * len(self.log)
        return old

    def get_direction(self, mu=1.0, **kw):
        self.log.append((self.k, mu))
        return [mu]


class Plain(P.Proposal):
    """not an ensemble proposal: must not be given the ensemble"""

    def __init__(self, k, log):
        self.k, self.log = k, log
        self.given = None

    log_J = -0.75

    def get_sample(self, old, **kw):
        self.log.append((self.k, kw))
        old['a'] = float(self.k)
        return old


def run_cycle(case, ctx):
    seed_all(case['seed'])
    log = []
    ws = case['weights']
    props = [(Plain if case['plain'] == k else Stub)(k, log) for k in range(len(ws))]
    total = sum(ws)
    counts = [0] * len(ws)
    calls = 0
    ens = [LivePoint(['a'], d=array('d', [float(i)])) for i in range(4)]
    for rep in range(case['cycles']):
        kw = {} if case['cyclelength'] is None else dict(cyclelength=case['cyclelength'])
        with sut('ProposalCycle'):
            # a cycle may itself be a member of a cycle
            c = P.ProposalCycle([P.ProposalCycle([p], [2.0]) if p.k == case.get('nest') else p for p in props], list(ws), **kw)
        check(len(c.weights) == len(ws) and all(abs(a - b / total) < 1e-12 for a, b in zip(c.weights, ws)), 'weights %r normalised to %r', ws, c.weights)
        with sut('set_ensemble'):
            c.set_ensemble(ens)
        for p in props:
            if isinstance(p, Stub):
                check(p.given is ens or (p.given is not None and list(p.given) == ens), 'proposal %d of the cycle did not receive the ensemble', p.k)
                p.given = None
        L = case['cyclelength'] or 100
        for _ in range(L):
            del log[:]
            start = LivePoint(['a'], d=array('d', [99.0]))
            with sut('get_sample'):
                new = c.get_sample(start, **({'logLmin': -1.5} if case['kw'] else {}))
            check(len(log) == 1, 'one jump used %d proposals', len(log))
            k, got = log[0]
            check(got == ({'logLmin': -1.5} if case['kw'] else {}), 'the proposal received the arguments %r', got)
            check(new['a'] == float(k), 'the jump returned is not that of the proposal used')
            check(c.log_J == props[k].log_J, 'the cycle reports log ratio %r, the proposal just used has %r', c.log_J, props[k].log_J)
            counts[k] += 1
            calls += 1
            check(ws[k] > 0, 'a proposal of zero weight was used')
    for k, w in enumerate(ws):
        p = binomtest(counts[k], calls, w / total).pvalue
        check(p > ALPHA, 'proposal %d of weight %r/%r was used %d times in %d (p=%.2g)', k, w, total, counts[k], calls, p)
    if case['add']:
        extra = Stub(len(props), log)
        first = 0
        for rep in range(30):
            with sut('add_proposal'):
                c = P.ProposalCycle(list(props), list(ws), **kw)
                c.set_ensemble(ens)
                c.add_proposal(extra, case['add'])
            for _ in range(L):
                del log[:]
                with sut('get_sample'):
                    c.get_sample(LivePoint(['a'], d=array('d', [99.0])))
                first += log[0][0] == extra.k
        props.append(extra)
        check(abs(sum(c.weights) - 1) < 1e-12 and len(c.weights) == len(props), 'weights after adding a proposal: %r', c.weights)
        check(all(abs(c.weights[i] * ws[j] - c.weights[j] * ws[i]) < 1e-9 for i in range(len(ws)) for j in range(len(ws))), 'adding a proposal changed the ratios of the other weights')
        with sut('set_ensemble'):
            c.set_ensemble(ens)
        check(extra.given is not None and list(extra.given) == ens, 'the added proposal did not receive the ensemble')
        p = binomtest(first, 30 * L, min(1.0, c.weights[-1])).pvalue
        check(p > ALPHA, 'the added proposal of weight %r was used %d times in the first %d jumps of 30 cycles', c.weights[-1], first, 30 * L)
        n = 0
        for _ in range(60):
            with sut('set_cycle'):
                c.set_cycle()
            for _ in range(L):
                del log[:]
                with sut('get_sample'):
                    c.get_sample(LivePoint(['a'], d=array('d', [99.0])))
                n += log[0][0] == extra.k
        p = binomtest(n, 60 * L, min(1.0, c.weights[-1])).pvalue
        check(p > ALPHA, 'the added proposal of weight %r was used %d times in %d', c.weights[-1], n, 60 * L)
        ctx.label('proposal added')
    ctx.nontrivial(len(ws) > 1)
    ctx.label('%d proposals' % len(ws))


@st.composite
def cycles(draw):
    ws = draw(st.lists(st.sampled_from([1.0, 2.0, 5.0, 10.0, 0.0, 0.3]), min_size=1, max_size=5).filter(lambda w: sum(w) > 0))
    ints = draw(st.booleans())
    if ints and all(w == int(w) for w in ws):
        ws = [int(w) for w in ws]
    return dict(weights=ws, cyclelength=draw(st.sampled_from([None, 1, 7, 30])), cycles=draw(st.sampled_from([10, 40])), seed=draw(seeds), kw=draw(st.booleans()),
                plain=draw(st.integers(0, 5)), nest=draw(st.integers(0, 5)), add=draw(st.sampled_from([0, 1.0, 0.5])))


def run_defaults(case, ctx):
    """the provided mixtures reach every one of their proposals"""
    names, ens, old = make_points(case)
    seed_all(case['seed'])
    before = snap(ens)
    which = case['which']
    with sut('cycle'):
        c = P.DefaultProposalCycle() if which == 'mhs' else P.EnsembleSliceProposalCycle()
        c.set_ensemble(ens)
    check(abs(sum(c.weights) - 1) < 1e-12, 'weights %r', c.weights)
    for p in c.proposals:
        check(p.ensemble is not None and list(p.ensemble) == ens, '%s did not receive the ensemble', type(p).__name__)
    x0 = arr(old)
    for k in range(60):
        with sut('jump'):
            if which == 'mhs':
                y = arr(c.get_sample(old.copy()))
                stretch = any(float(abs(c.log_J - p.log_J)) == 0 for p in c.proposals)
                check(stretch, 'the log ratio %r is that of none of the proposals', c.log_J)
            else:
                v = c.get_direction(mu=case['mu'])
                y = arr(v) if isinstance(v, LivePoint) else np.array(v)
        check(y.shape == x0.shape and bool(np.all(np.isfinite(y))), 'jump %r', y)
        check(bytes(old.values) == bytes(array('d', x0.tolist())), 'the starting point changed')
    what = 'get_sample' if which == 'mhs' else 'get_direction'
    counts, calls = {}, 0
    for _ in range(4):
        with sut('cycle'):
            c = type(c)()
            c.set_ensemble(ens)
        used = []
        for i, p in enumerate(c.proposals):
            def watched(*a, real=getattr(p, what), i=i, **kw):
                used.append(i)
                return real(*a, **kw)
            setattr(p, what, watched)
        for _ in range(60):
            n = len(used)
            with sut('jump'):
                getattr(c, what)(*([old.copy()] if which == 'mhs' else []))
            check(len(used) == n + 1, 'one jump used %d proposals', len(used) - n)
            check(c.log_J == c.proposals[used[-1]].log_J, 'the cycle reports log ratio %r, the proposal just used has %r', c.log_J, c.proposals[used[-1]].log_J)
        check(len(set(used)) > 1, 'all jumps used the same proposal of the mixture')
        for i in used:
            counts[i] = counts.get(i, 0) + 1
        calls += len(used)
    for i, w in enumerate(c.weights):
        p = binomtest(counts.get(i, 0), calls, w).pvalue
        check(p > ALPHA, 'proposal %d of weight %r was used %d times in %d (p=%.2g)', i, w, counts.get(i, 0), calls, p)
    check(snap(ens) == before, 'the ensemble changed')
    ctx.nontrivial(True)
    ctx.label(which)


defaults = st.fixed_dictionaries(dict(which=st.sampled_from(['mhs', 'sli']), dim=st.integers(1, 5), n=st.integers(8, 30), corr=st.booleans(), rs=seeds, seed=seeds,
                                      scales=st.lists(st.sampled_from([1.0, 10.0, 0.1]), min_size=1, max_size=4), offset=st.just([0.0, 1.0, -5.0, 3.0, 2.0]), mu=st.sampled_from([1.0, 0.3])))


def run_hmc(case, ctx):
    model = Mod(case)
    rng = np.random.default_rng(case['rs'])
    pts = []
    for k in range(case['n']):
        p = LivePoint(model.names, d=array('d', [a + (b - a) * rng.random() for a, b in model.bounds]))
        p.logP, p.logL = model.log_prior(p), model.llike(p)
        pts.append(p)
    seed_all(case['seed'])
    before = snap(pts)
    with sut('HamiltonianProposalCycle'):
        c = proposals_for('hmc', None, model)
        c.set_ensemble(deque(pts))
    ls = sorted(p.logL for p in pts)
    bound = -math.inf if case['q'] < 0 else ls[int(case['q'] * (len(ls) - 1))]
    moved = 0
    with sut('adaptation'):             # a sampler that has accepted every jump for long takes large steps
        for _ in range(case['tuned']):
            for p in c.proposals:
                p.update_time_step(1.0)
    energies = []
    for prop in c.proposals:        # seen only where the code asks for the energy of a state
        def record(p, q, real=prop.hamiltonian):
            h = real(p, q)
            energies.append((bytes(q.values), h))
            return h
        prop.hamiltonian = record
    try:
        for k in range(case['jumps']):
            del energies[:]
            old = pts[int(rng.integers(len(pts)))].copy()
            x0 = bytes(old.values)
            with sut('get_sample'):
                new = c.get_sample(old, logLmin=bound)
            check(bytes(old.values) == x0, 'the jump changed the starting point')
            check(list(new.names) == model.names, 'the jump returned %r', new)
            inside = all(a <= v <= b for v, (a, b) in zip(new.values, model.bounds))
            check(inside, 'the jump left the bounds: %r, bounds %r', list(new.values), model.bounds)
            check(new.logL == model.llike(new), 'the jump carries log-likelihood %r, the model gives %r at that point', new.logL, model.llike(new))
            check(new.logP == model.log_prior(new), 'the jump carries log-prior %r, the model gives %r at that point', new.logP, model.log_prior(new))
            check(c.log_J <= 0.0, 'the log ratio is %r', c.log_J)
            check(snap(pts) == before, 'the jump changed the ensemble')
            moved += bytes(new.values) != x0
            if len(energies) >= 2 and energies[0][0] == x0 and energies[-1][0] == bytes(new.values):
                want = min(0.0, energies[0][1] - energies[-1][1])
                check(abs(c.log_J - want) <= 1e-9 * (1 + abs(want)), 'the log ratio is %r, the energies %r and %r give %r', c.log_J, energies[0][1], energies[-1][1], want)
                ctx.label('energy ratio checked')
            with sut('adaptation'):
                for p in c.proposals:
                    p.update_time_step(case['acc'])
                    p.update_trajectory_length(case['nmcmc'])
        ctx.nontrivial(moved > 0)
        ctx.label('dim %d' % case['dim'], 'large steps' if case['tuned'] else 'default steps', 'bound' if case['q'] >= 0 else 'no bound', 'prior ' + model.prior)
    except Budget:
        raise Inconclusive('likelihood budget')


@st.composite
def hmcs(draw):
    d = draw(st.integers(1, 3))
    b = []
    for _ in range(d):
        lo = draw(st.sampled_from([0.0, -1.0, -10.0, 5.0]))
        b.append([lo, lo + draw(st.sampled_from([1.0, 2.0, 3.0]))])
    return dict(dim=d, bounds=b, centre=draw(st.lists(st.floats(0.1, 0.9), min_size=d, max_size=d)), prior=draw(st.sampled_from(['flat', 'gauss', 'exp', 'linear'])),
                like=draw(st.sampled_from(['gauss', 'cone', 'ramp', 'ring'])), sig=draw(st.sampled_from([0.1, 0.3, 1.0])), n=draw(st.integers(60, 90)), rs=draw(seeds), seed=draw(seeds),
                q=draw(st.sampled_from([-1, 0.1, 0.5, 0.9])), jumps=draw(st.integers(2, 8)), acc=draw(st.sampled_from([0.0, 0.5, 1.0])), nmcmc=draw(st.integers(2, 12)), tuned=draw(st.sampled_from([0, 0, 0, 4000, 9000])), budget=20000)


FACETS = [Facet('jumps', jumps(), run_jump, 12000, 200000, shards=4, rule='single proposals over generated ensembles; the documented geometry and log ratio are recovered from the returned point by search over members, pairs, eigenvectors or triples; non-trivial = at least two jumps and four members'),
          Facet('moments', moments, run_moments, 200, 4000, shards=2, rule='mean and variance of 3000 jumps against the ensemble covariance, 9 standard errors'),
          Facet('cycles', cycles(), run_cycle, 800, 16000, shards=2, rule='cycles of recording proposals: use in proportion (binomial p<1e-11), log ratio, ensemble; non-trivial = several proposals'),
          Facet('defaults', defaults, run_defaults, 400, 2000, shards=1, rule='the provided mixtures'),
          Facet('hamiltonian', hmcs(), run_hmc, 1000, 20000, shards=4, rule='constrained Hamiltonian jumps: bounds, likelihood and prior at the returned point; non-trivial = a jump that moved')]
