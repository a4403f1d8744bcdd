"""C14: a checkpoint being written never destroys the last good checkpoint."""
import os
import resource
import shutil
import signal
import sys
import tempfile

from hypothesis import strategies as st

from checks.nsgen import scripted
from vf.engine import Facet, HarnessError, Inconclusive, check, sut
from vf.gen import seeds
from vf.samplers import Budget, Mod, OneManager, make_sampler, seed_all
from vf.simns import NSRun, SimManager
from vf.states import differences, ns_state, sampler_state
from cpnest.cpnest import CheckPoint
from cpnest.NestedSampling import NestedSampler
from cpnest import sampler as S

PROPERTY = 'C14'
ASSUMPTIONS = ['the disk is full or the process dies at a byte (RLIMIT_FSIZE) or between two lines of the checkpointing code; the file system itself keeps completed writes and renames']
KINDS = dict(mhs='MetropolisHastingsSampler', hmc='HamiltonianMonteCarloSampler', sli='SliceSampler')


def faulty(obj, mode, at):
    """Call obj.checkpoint() in a forked child in which writing fails; returns how it ended."""
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            if mode in ('full', 'die'):
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if mode == 'full' else signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (at, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
            elif mode == 'line':
                left = [at]

                def local(frame, event, arg):
                    if event == 'line':
                        left[0] -= 1
                        if left[0] < 0:
                            os._exit(77)
                    return local

                def tracer(frame, event, arg):
                    return local if os.sep + 'cpnest' + os.sep in frame.f_code.co_filename else None
                sys.settrace(tracer)
            try:
                obj.checkpoint()
                code = 0
            except OSError:
                code = 78
        except BaseException:
            pass
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig != signal.SIGXFSZ:
            raise HarnessError('child died with signal %d' % sig)
        return 'died'
    code = os.WEXITSTATUS(status)
    if code == 99:
        raise HarnessError('child failed')
    return {0: 'completed', 77: 'died', 78: 'error'}[code]


def attack(case, ctx, obj, path, resume, old, new):
    """old/new: states (old is None for the first checkpoint)"""
    size = case.get('size') or 0
    for mode, frac in case['faults']:
        if mode == 'line':
            at = int(frac * frac * 60)
        elif frac > 1:
            at = int(frac)               # absolute bytes, small
        else:
            at = int(frac * size * 1.02)
        keep = None
        if os.path.exists(path):
            with open(path, 'rb') as f:
                keep = f.read()
        how = faulty(obj, mode, at)
        where = '%s at %d (a complete checkpoint has %d bytes), %s' % (dict(full='disk full', die='process killed', line='process killed at line')[mode], at, size, how)
        if not os.path.exists(path):
            check(old is None and how != 'completed', '%s: the resume file is gone', where)
            ctx.label('no file yet')
            continue
        try:
            got = resume(path)
        except Exception as e:
            check(False, '%s: the resume file (%d bytes) does not load: %s: %s', where, os.path.getsize(path), type(e).__name__, e)
        dn = differences(got, new)
        if not dn:
            ctx.label(mode + ': new state')
        else:
            check(how != 'completed', '%s: the checkpoint was completed but the resume file differs from the state in %s', where, dn)
            check(old is not None, '%s: the resume file holds a state that never existed (differs in %s)', where, dn)
            do = differences(got, old)
            check(not do, '%s: the resume file holds neither the previous state (differs in %s) nor the new one (differs in %s)', where, do, dn)
            ctx.label(mode + ': previous state')
            ctx.nontrivial(True)
        if keep is None:
            os.remove(path)
        else:
            with open(path, 'wb') as f:
                f.write(keep)
    # whatever earlier attempts left behind, a checkpoint that completes replaces all
    with sut('checkpoint'):
        obj.checkpoint()
    got = resume(path)
    check(not differences(got, new), 'after failed attempts a complete checkpoint differs from the state in %s', differences(got, new))


def run_ns(case, ctx):
    stops = [case['a'], case['a'] + case['b']]

    def interrupted(r, after):
        """let the loop run until `after` answers, then the signal comes"""
        w = r.world
        real = type(w).answer

        def answer(i, req):
            if w.answers >= after:
                raise CheckPoint()
            return real(w, i, req)
        w.answer = answer
        try:
            r.loop()
        except SystemExit as e:
            check(e.code == 130, 'exit status %r after a checkpoint', e.code)
            return True
        except CheckPoint:
            raise Inconclusive('interrupted while populating')
        return False
    r = NSRun(case)
    try:
        with sut('NestedSampler'):
            ns = r.make()
        path = ns.resume_file
        old = None
        if not case['first']:
            if not interrupted(r, stops[0] + case['nlive'] + 40):
                raise Inconclusive('run ended before the interruption')
            old = ns_state(ns)
            with open(path, 'rb') as f:
                keep = f.read()
            # the answers outstanding are given to the run that goes on
            r.world.attach(SimManager(r.world.n))
            from copy import copy
            with sut('resume'):
                r.ns = ns = NestedSampler.resume(path, r.world.manager, r.world.model)
            check(not differences(ns_state(ns), old), 'the resumed state differs in %s', differences(ns_state(ns), old))
            # a later state, without depending on how an iteration works
            ns.nested_samples.extend(list(ns.params)[:case['b'] % 7])
            ns.iteration += case['b']
            ns.state.increment(1e3 + case['b'], nreplace=1)
            if case['shrink']:
                del ns.nested_samples[:-1]
                del ns.insertion_indices[:-1]
        else:
            if not interrupted(r, stops[0] + case['nlive'] + 40):
                raise Inconclusive('run ended before the interruption')
            keep = None
        new = ns_state(ns)
        with sut('checkpoint'):
            ns.checkpoint()
        case = dict(case, size=os.path.getsize(path))
        if keep is None:
            os.remove(path)
        else:
            with open(path, 'wb') as f:
                f.write(keep)
            ctx.label('smaller than the previous' if case['size'] < len(keep) else 'not smaller than the previous')

        def resume(p):
            return ns_state(NestedSampler.resume(p, SimManager(r.world.n), r.world.model))
        attack(case, ctx, ns, path, resume, old, new)
        ctx.label('first' if old is None else 'later')
    finally:
        r.close()


def run_sampler(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    try:
        model = Mod(case)
        path = os.path.join(d, 'sampler_0.pkl')
        seed_all(case['rs'])
        kind = case['kind']
        with sut('sampler'):
            s = make_sampler(kind, model, OneManager(), case['maxmcmc'], case['poolsize'], case['seed'], resume_file=path)
            s.reset()
        old = None

        def resume(p):
            return sampler_state(getattr(S, KINDS[kind]).resume(p, OneManager(), model))
        if not case['first']:
            for _ in range(case['a']):
                next(s.yield_sample(-float('inf')))
            with sut('checkpoint'):
                s.checkpoint()
            old = sampler_state(s)
            with open(path, 'rb') as f:
                keep = f.read()
        for _ in range(case['b']):
            next(s.yield_sample(-float('inf')))
        if case['shrink']:
            while len(s.samples) > 1:
                s.samples.pop()
        new = sampler_state(s)
        with sut('checkpoint'):
            s.checkpoint()
        case = dict(case, size=os.path.getsize(path))
        if old is None:
            os.remove(path)
        else:
            with open(path, 'wb') as f:
                f.write(keep)
            ctx.label('smaller than the previous' if case['size'] < len(keep) else 'not smaller than the previous')
        attack(case, ctx, s, path, resume, old, new)
        ctx.label(kind, 'first' if old is None else 'later')
    except Budget:
        raise Inconclusive('likelihood budget')
    finally:
        shutil.rmtree(d, ignore_errors=True)


faults = st.lists(st.one_of(st.tuples(st.sampled_from(['full', 'die']), st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.98, 0.5]), st.integers(2, 70).map(float))),
                            st.tuples(st.just('line'), st.floats(0, 1))), min_size=4, max_size=12)


@st.composite
def ns_cases(draw):
    c = draw(scripted(maxlive=30, tols=st.just(1e-5)))
    c['cap'], c['base'] = 3.0, -5.0
    c.update(a=draw(st.integers(1, 60)), b=draw(st.integers(1, 40)), first=draw(st.sampled_from([False, False, True])), shrink=draw(st.booleans()), faults=draw(faults))
    return c


@st.composite
def sampler_cases(draw):
    kind = draw(st.sampled_from(['mhs', 'sli', 'mhs', 'sli', 'hmc']))
    d = draw(st.integers(1, 3))
    return dict(kind=kind, dim=d, bounds=[[0.0, 1.0]] * d, centre=[0.5] * d, prior=draw(st.sampled_from(['flat', 'gauss'])), like='gauss', sig=0.3,
                poolsize=draw(st.integers(50, 60)) if kind == 'hmc' else draw(st.integers(8, 20)), maxmcmc=10, seed=draw(st.integers(0, 999)), rs=draw(seeds), budget=60000,
                a=draw(st.integers(0, 10)), b=draw(st.integers(1, 20)), first=draw(st.sampled_from([False, False, True])), shrink=draw(st.booleans()), faults=draw(faults))


RULE = 'the checkpoint is written in a forked child that runs out of disk at a byte, is killed at a byte or at a line, and the resume file is loaded afterwards; non-trivial = a fault after which the file holds the previous state'
FACETS = [Facet('integrator', ns_cases(), run_ns, 500, 10000, shards=4, rule=RULE),
          Facet('samplers', sampler_cases(), run_sampler, 400, 8000, shards=4, rule=RULE)]
