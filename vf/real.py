"""Complete runs of cpnest in real processes, observed from outside.

A forked child (own session) builds the model and the CPNest object, runs it and leaves a JSON report; the parent
watches the processes of the session.  Time is not an oracle: a run is declared hung when all its processes have
been sleeping without using any CPU for a long while, and runaway by the CPU time it has used."""
import faulthandler
import json
import multiprocessing as mp
import os
import pickle
import random
import shutil
import signal
import sys
import time
import traceback

import numpy as np

from .engine import Inconclusive, HarnessError
from .samplers import Mod

HUNG_S = 25.0            # every process asleep and no CPU used for so long
CPU_S = 150.0            # CPU seconds a run may use


class RealMod(Mod):
    """Counts its evaluations in each process; one process may send a signal at a given one."""

    def __init__(self, case):
        super().__init__(case)
        self.trigger = case.get('trigger')
        self.main = os.getpid()
        self.first = case.get('record', 0)
        self.nthreads = case.get('nthreads', 1)
        self.streams = {} if case.get('streams') else None

    def note_streams(self):
        """which states of the random generators this process uses"""
        for kind, now in (('numpy', np.random.get_state()), ('python', random.getstate())):
            key = hash(bytes(now[1])) if kind == 'numpy' else hash(now[1][:-1])
            pos = now[2:] if kind == 'numpy' else now[1][-1]
            last, used = self.streams.get((kind, os.getpid()), (None, None))
            if last is not None and last != (key, pos) and used != key:
                with open(os.path.join(self.where, 'streams-%d.txt' % os.getpid()), 'a') as f:
                    f.write('%s %d\n' % (kind, key))
                used = key
            self.streams[kind, os.getpid()] = ((key, pos), used)

    def log_prior(self, p):
        if self.streams is not None and mp.current_process()._identity:
            self.note_streams()
        return super().log_prior(p)

    def __getstate__(self):
        return dict(super().__getstate__(), trigger=None, first=0, streams=None)

    def log_likelihood(self, p):
        self.calls += 1
        L = self.llike(p)
        if self.first and self.calls <= self.first:
            with open(os.path.join(self.where, 'draws-%d.txt' % os.getpid()), 'a') as f:
                f.write(' '.join(float(v).hex() for v in p.values) + '\n')
        t = self.trigger
        if t and self.calls == t['at']:
            who = mp.current_process()._identity
            if who and who[0] % self.nthreads == t['proc'] % self.nthreads:
                sig = getattr(signal, t['sig'])
                if t['group']:
                    os.killpg(os.getsid(0), sig)
                else:
                    os.kill(self.main, sig)
        return L


def stat(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            s = f.read()
    except OSError:
        return None
    rest = s[s.rindex(')') + 2:].split()
    return dict(state=rest[0], ppid=int(rest[1]), sid=int(rest[3]), cpu=int(rest[11]) + int(rest[12]))


def session(sid):
    out = {}
    for d in os.listdir('/proc'):
        if d.isdigit():
            s = stat(int(d))
            if s and s['sid'] == sid and s['state'] != 'Z':
                out[int(d)] = s
    return out


def plain(a):
    return None if a is None else [[float(x) for x in row] for row in np.atleast_1d(a).tolist()] if a.dtype.names else a.tolist()


def child(cfg, where, report):
    """runs in the forked child"""
    import cpnest
    from cpnest.cpnest import CPNest
    out = dict(stage='construct')

    def save():
        with open(report + '.tmp', 'w') as f:
            json.dump(out, f)
        os.replace(report + '.tmp', report)
    code = 0
    try:
        random.seed(cfg['rs'])
        np.random.seed(cfg['rs'] % 2**32)
        model = cfg.get('model') or RealMod(cfg)
        model.where = where
        kw = dict(cfg['kw'])
        cp = CPNest(model, output=cfg['output'], nlive=cfg['nlive'], poolsize=cfg['poolsize'], maxmcmc=cfg['maxmcmc'], nthreads=cfg['nthreads'], nhamiltonian=cfg['nham'],
                    nslice=cfg['nsli'], verbose=cfg['verbose'], seed=cfg['seed'], **kw)
        out['stage'] = 'run'
        out['npool'] = len(cp.process_pool)
        pool = list(cp.process_pool)
        out['kinds'] = [type(getattr(p._target, '__self__', None)).__name__ for p in pool]
        out['seeds'] = [getattr(getattr(p._target, '__self__', None), 'seed', None) for p in pool]
        save()
        cp.run()
        out['stage'] = 'done'
        out['exitcodes'] = [p.exitcode for p in pool]
        out['alive'] = [p.is_alive() for p in pool]
        NS = cp.NS
        out['logZ'] = float(NS.state.logZ)
        out['info'] = float(NS.state.info)
        out['iteration'] = int(NS.iteration)
        out['logLmax'] = float(NS.logLmax.value)
        out['names'] = list(model.names)
        out['nested'] = plain(cp.nested_samples)
        out['posterior'] = plain(np.asarray(cp.posterior_samples))
        out['fields'] = list(cp.posterior_samples.dtype.names), list(cp.nested_samples.dtype.names)
        for n in ('prior_samples', 'mcmc_samples'):
            a = getattr(cp, n, None)
            out[n] = plain(np.asarray(a)) if getattr(getattr(a, 'dtype', None), 'names', None) else None
        out['chain'] = [[float(v) for v in p.values] + [float(p.logL), float(p.logP)] for p in NS.nested_samples]
        out['insertion'] = [float(x) for x in NS.insertion_indices]
        out['rolling'] = len(NS.rolling_p)
        out['files'] = [NS.output_file, NS.evidence_file, NS.resume_file]
        save()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 1
        out['exit'] = code
        save()
    except BaseException as e:
        code = 1
        out['error'] = ''.join(traceback.format_exception(e))[-3000:]
        save()
    try:
        mp.util._exit_function()         # what the interpreter does at exit: joins the processes started
    except BaseException:
        traceback.print_exc()
    return code


def execute(cfg, where, name='run'):
    """Run cfg in directory `where`; returns the report with 'code', 'left' (processes left) and 'end'."""
    report = os.path.join(where, name + '.report.json')
    log = os.path.join(where, name + '.log')
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 97
        try:
            os.setsid()
            fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            sys.stdout = os.fdopen(1, 'w', closefd=False)
            sys.stderr = os.fdopen(2, 'w', closefd=False)
            for s in ('SIGINT', 'SIGTERM', 'SIGALRM', 'SIGQUIT', 'SIGUSR1', 'SIGUSR2'):
                signal.signal(getattr(signal, s), signal.default_int_handler if s == 'SIGINT' else signal.SIG_DFL)
            faulthandler.register(signal.SIGRTMIN, file=open(log + '.stacks', 'w'), all_threads=False)
            os.chdir(cfg.get('cwd', where))
            if 'prepare' in cfg:
                cfg['prepare']()
            code = child(cfg, where, report)
        except BaseException:
            traceback.print_exc()
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code)
    status = None
    end = None
    quiet_since, last_cpu = time.time(), -1
    exited = None
    while True:
        p, st = os.waitpid(pid, os.WNOHANG) if status is None else (0, 0)
        now = time.time()
        if p:
            status, exited = st, now
        procs = session(pid)
        procs.pop(pid, None) if status is not None else None
        if status is not None:
            if not procs:
                end = end or 'exited'
                break
            if now - exited > 3.0:
                # only count processes that do not go away by themselves
                end = 'left'
                break
        else:
            cpu = sum(s['cpu'] for s in procs.values())
            if cpu != last_cpu or any(s['state'] not in 'S' for s in procs.values()):
                last_cpu, quiet_since = cpu, now
            if now - quiet_since > HUNG_S:
                end = 'hung'
                break
            # utime and stime of finished children are lost from the sum, which only delays this
            if cpu / os.sysconf('SC_CLK_TCK') > cfg.get('cpu', CPU_S):
                end = 'runaway'
                break
        time.sleep(0.02)
    left = {k: v['state'] for k, v in session(pid).items() if k != pid} if end == 'left' else {}
    tree = {k: v['state'] for k, v in session(pid).items()}
    stacks = ''
    if end in ('hung', 'runaway', 'left'):       # for the replay's message
        for k in tree:
            try:
                os.kill(k, signal.SIGRTMIN)     # faulthandler writes the stack
                time.sleep(0.1)
            except OSError:
                pass
        try:
            with open(log + '.stacks') as f:
                stacks = f.read()[-4000:]
        except OSError:
            pass
    for k in list(session(pid)):
        try:
            os.kill(k, signal.SIGKILL)
        except OSError:
            pass
    if status is None:
        os.waitpid(pid, 0)
    rep = {}
    try:
        with open(report) as f:
            rep = json.load(f)
    except OSError:
        pass
    try:
        with open(log, errors='replace') as f:
            rep['log'] = f.read()[-3000:]
    except OSError:
        rep['log'] = ''
    rep['end'] = end
    rep['left'] = left
    rep['stacks'] = stacks
    rep['tree'] = tree
    rep['code'] = os.waitstatus_to_exitcode(status) if status is not None else None
    if rep['code'] == 97:
        raise HarnessError('child failed:\n' + rep['log'])
    return rep
