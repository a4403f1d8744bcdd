"""C04: nested sampling discards in order and never loses or duplicates a point."""
from checks.nsgen import conserved, scripted
from vf.engine import Facet, sut, check
from vf.simns import NSRun

PROPERTY = 'C04'
ASSUMPTIONS = ['fewer samplers than live points (the code divides by the number of live points left)',
               'samplers eventually return an acceptable answer (real samplers retry until they do)']


def run(case, ctx):
    r = NSRun(case)
    w = r.world
    try:
        with sut('NestedSampler'):
            ns = r.make()
        with sut('nested_sampling_loop'):
            out = r.loop()
        conserved(w, ns, out)
        check(len(ns.nested_samples) == len(ns.state.logLs) - 1 + (w.n - 1) * w.rounds, 'the curve has %d entries', len(ns.state.logLs))
        ctx.nontrivial(w.rounds >= 2 and (w.stats['refused'] > 0 or w.stats['unusable'] > 0))
        for k in ('refused', 'tie', 'echo', 'unusable', 'tied_insert'):
            if w.stats[k]:
                ctx.label(k)
        ctx.label('one sampler' if w.n == 1 else 'several samplers', 'live points multiple of samplers' if w.N % w.n == 0 else 'not a multiple')
    finally:
        r.close()


FACETS = [Facet('histories', scripted(), run, 2400, 40000, shards=8,
                rule='scripted answers (accept, tie, below, unchanged request, unusable) against a reference nested sampler, checked at each answer and at the end; non-trivial = at least two iterations and a refused or unusable answer')]
