"""What a checkpoint must preserve, as comparable values."""


def point(p):
    if p is None:
        return None
    return (tuple(p.names), bytes(p.values), repr(float(p.logL)), repr(float(p.logP)))


def points(ps):
    return tuple(point(p) for p in ps)


def floats(xs):
    return tuple(repr(float(x)) for x in xs)


def ns_state(ns, llmin=None, llmax=None):
    s = ns.state
    return dict(iteration=int(ns.iteration), nlive=int(ns.Nlive), params=points(ns.params), nested_samples=points(ns.nested_samples),
                insertion_indices=floats(ns.insertion_indices), rolling_p=floats(ns.rolling_p), logLs=floats(s.logLs), log_vols=floats(s.log_vols),
                logZ=repr(float(s.logZ)), info=repr(float(s.info)), steps=int(s.iteration), condition=repr(float(ns.condition)), tolerance=float(ns.tolerance),
                accepted=int(ns.accepted), rejected=int(ns.rejected), queue_counter=int(ns.queue_counter), seed=ns.seed, prior_sampling=bool(ns.prior_sampling),
                initialised=bool(ns.initialised), logLmin=repr(float(ns.logLmin.value)), logLmax=repr(float(ns.logLmax.value)), verbose=ns.verbose,
                output_folder=ns.output_folder, output_file=ns.output_file)


def sampler_state(s):
    d = dict(kind=type(s).__name__, pool=points(s.evolution_points), maxlen=s.evolution_points.maxlen, samples=points(s.samples), Nmcmc=int(s.Nmcmc),
             Nmcmc_exact=repr(float(s.Nmcmc_exact)), acceptance=repr(float(s.acceptance)), sub_acceptance=repr(float(s.sub_acceptance)), mcmc_accepted=int(s.mcmc_accepted),
             mcmc_counter=int(s.mcmc_counter), initialised=bool(s.initialised), poolsize=int(s.poolsize), maxmcmc=int(s.maxmcmc), seed=s.seed, verbose=s.verbose,
             sample_prior=bool(s.sample_prior), proposal=type(s.proposal).__name__)
    if hasattr(s, 'mu'):
        d['mu'] = repr(float(s.mu))
    pr = s.proposal
    if getattr(pr, 'ensemble', None) is not None:
        d['ensemble'] = points(pr.ensemble)
    if hasattr(pr, 'proposals'):
        d['proposals'] = tuple(type(p).__name__ for p in pr.proposals)
        d['weights'] = floats(pr.weights)
        d['cycle'] = tuple(type(p).__name__ for p in pr.cycle)
        d['idx'] = int(pr.idx)
        for i, p in enumerate(pr.proposals):
            if hasattr(p, 'dt'):
                d['dt%d' % i] = repr(float(p.dt)) + repr(p.L) + repr(float(p.scale))
    return d


def differences(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
