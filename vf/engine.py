"""Generated-case engine: Hypothesis generates JSON-able cases, `run(case, ctx)` is a pure
function of (code, case) which raises Violation; failures are shrunk and saved as replay files."""
import hashlib
import json
import os
import re
import signal
import sys
import time
import traceback
from contextlib import contextmanager

from .boot import REPO, VERIF, HarnessError  # noqa: F401


class Violation(Exception):
    pass


class Inconclusive(Exception):
    """The case could not be decided (work budget): counted, never a verdict."""


class StopJob(KeyboardInterrupt):
    """Leaves Hypothesis at once (time budget or end of shrinking budget)."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


@contextmanager
def sut(what):
    """Calls into the code under test on valid input: any exception is a violation."""
    try:
        yield
    except (Violation, Inconclusive, HarnessError):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb][-4:]
        raise Violation('%s raised %s: %s (at %s)' % (what, type(e).__name__, e, ' > '.join(where))) from e


def _from_sut(exc):
    """True if the innermost frame that is ours or theirs belongs to the tree under test."""
    last = None
    for f in traceback.extract_tb(exc.__traceback__):
        fn = f.filename
        if fn.startswith(os.path.join(REPO, 'cpnest') + os.sep) or fn.endswith('parameter.pyx'):
            last = 'sut'
        elif fn.startswith(VERIF + os.sep):
            last = 'harness'
    return last == 'sut'


def clean(o):
    """Make JSON strict: non-finite floats become strings."""
    if isinstance(o, dict):
        return {str(k): clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v) for v in o]
    if isinstance(o, float) and (o != o or o in (float('inf'), float('-inf'))):
        return repr(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def canon(case):
    return json.dumps(case, sort_keys=True)


def known(prop):
    """Genuine defects recorded and not repaired: key -> what fails"""
    out = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Ctx:
    def __init__(self):
        self.labels = set()
        self._nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels.add(str(n))

    def nontrivial(self, yes=True):
        if yes:
            self._nontrivial = True


class Facet:
    def __init__(self, name, strategy, run, quick, thorough, shards=1, tshards=None, shrink=True, shrink_s=60,
                 rule='', budget_s=400, exhaustive=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.n = dict(quick=quick, thorough=thorough)
        self.shards = dict(quick=shards, thorough=tshards or max(8, shards))
        self.shrink, self.shrink_s, self.rule = shrink, shrink_s, rule
        self.budget = dict(quick=budget_s, thorough=budget_s * 8)
        self.exhaustive = exhaustive


def _mix(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], 'big')


def run_one(facet, case):
    """Run one case; returns (ctx, None) or (ctx, message of violation)."""
    ctx = Ctx()
    try:
        facet.run(case, ctx)
    except Violation as e:
        return ctx, str(e)
    except (Inconclusive, HarnessError, StopJob):
        raise
    except Exception as e:
        if _from_sut(e):
            return ctx, 'unexpected %s: %s\n%s' % (type(e).__name__, e, ''.join(traceback.format_exception(e)[-6:]))
        raise
    return ctx, None


class JobResult(dict):
    pass


def run_job(facet, prop, shard, tier, seed, outfile, lastcase):
    """One shard of one facet, in its own process."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    res = dict(facet=facet.name, shard=shard, evaluations=0, nontrivial=[], labels={}, samples=[], inconclusive=0,
               violation=None, error=None, truncated=False, failures_seen=0)
    seen = set()
    t0 = time.time()
    state = dict(first_fail=None, best=None)
    lc = os.open(lastcase, os.O_RDWR | os.O_CREAT | os.O_TRUNC)

    nshards = facet.shards[tier]
    n = -(-facet.n[tier] // nshards)

    def body(case):
        now = time.time()
        if state['first_fail'] is None and now - t0 > facet.budget[tier]:
            res['truncated'] = True
            raise StopJob()
        if state['first_fail'] is not None and now - state['first_fail'] > facet.shrink_s:
            raise StopJob()
        c = canon(case)
        b = c.encode()
        os.pwrite(lc, len(b).to_bytes(8, 'big') + b, 0)
        case = json.loads(c)        # exactly what a replay will see
        try:
            ctx, msg = run_one(facet, case)
        except Inconclusive as e:
            if state['first_fail'] is None:
                res['evaluations'] += 1
                res['inconclusive'] += 1
                res['labels']['inconclusive: %s' % e] = res['labels'].get('inconclusive: %s' % e, 0) + 1
            return
        if msg is None:
            if state['first_fail'] is None:
                res['evaluations'] += 1
                for l in ctx.labels:
                    res['labels'][l] = res['labels'].get(l, 0) + 1
                if ctx._nontrivial:
                    h = hashlib.sha256(b).hexdigest()[:16]
                    if h not in seen:
                        seen.add(h)
                        if len(res['samples']) < 2 and len(b) < 3000:
                            res['samples'].append(case)
            return
        res['failures_seen'] += 1
        if state['first_fail'] is None:
            res['evaluations'] += 1
            state['first_fail'] = time.time()
        if state['best'] is None or len(b) <= state['best'][0]:
            state['best'] = (len(b), case, msg)
        if not facet.shrink:
            raise StopJob()
        raise Violation(msg)

    try:
        if facet.exhaustive is not None:
            for i, case in enumerate(facet.exhaustive(tier)):
                if i % nshards == shard:
                    try:
                        body(case)
                    except Violation:
                        break
        else:
            test = hypothesis.given(facet.strategy)(body)
            test = settings(max_examples=n, deadline=None, database=None, derandomize=False,
                            report_multiple_bugs=False, print_blob=False,
                            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                   HealthCheck.large_base_example],
                            phases=(Phase.generate, Phase.shrink), verbosity=hypothesis.Verbosity.quiet)(test)
            test = hypothesis.seed(_mix(seed, prop, facet.name, shard))(test)
            test()
    except StopJob:
        pass
    except BaseException as e:
        if state['best'] is None:
            res['error'] = ''.join(traceback.format_exception(e))[-6000:]
    if state['best'] is not None:
        res['violation'] = dict(case=state['best'][1], message=state['best'][2])
    res['nontrivial'] = sorted(seen)
    res['wall'] = time.time() - t0
    with open(outfile + '.tmp', 'w') as f:
        json.dump(res, f)
    os.replace(outfile + '.tmp', outfile)


CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT}


def run_jobs(mod, facets, tier, seed, scratch, jobs=None):
    """Fork one process per (facet, shard), at most `jobs` at a time; returns list of results."""
    try:
        return _run_jobs(mod, facets, tier, seed, scratch, jobs)
    finally:
        reap()


def adopt_orphans():
    """make this process the parent of whatever a job leaves behind, so that reap() finds it"""
    import ctypes
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)      # PR_SET_CHILD_SUBREAPER


def reap():
    """end all the processes this one started"""
    while True:
        mine = []
        for d in os.listdir('/proc'):
            if d.isdigit():
                try:
                    with open('/proc/%s/stat' % d) as f:
                        st = f.read().rsplit(')', 1)[1].split()
                except OSError:
                    continue
                if int(st[1]) == os.getpid():
                    mine.append(int(d))
        if not mine:
            return
        for p in mine:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(p, 0)
            except ChildProcessError:
                pass


def _run_jobs(mod, facets, tier, seed, scratch, jobs):
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    queue = [(f, s) for f in facets for s in range(f.shards[tier])]
    running, results = {}, []
    stop = False
    while queue or running:
        while queue and len(running) < jobs and not stop:
            f, s = queue.pop(0)
            out = os.path.join(scratch, 'r-%s-%d.json' % (f.name, s))
            last = os.path.join(scratch, 'c-%s-%d.json' % (f.name, s))
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 70
                try:
                    os.setsid()
                    wd = os.path.join(scratch, 'w-%s-%d' % (f.name, s))
                    os.mkdir(wd)
                    os.chdir(wd)
                    run_job(f, mod.PROPERTY, s, tier, seed, out, last)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            running[pid] = (f, s, out, last)
        if not running:
            break
        pid, status = os.wait()
        if pid not in running:
            continue
        f, s, out, last = running.pop(pid)
        try:
            os.killpg(pid, signal.SIGKILL)      # whatever the job left behind
        except (ProcessLookupError, PermissionError):
            pass
        if os.path.exists(out):
            with open(out) as fh:
                r = json.load(fh)
        else:
            r = dict(facet=f.name, shard=s, evaluations=0, nontrivial=[], labels={}, samples=[], inconclusive=0,
                     violation=None, error=None, truncated=False, failures_seen=0, wall=0)
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
            case = None
            try:
                with open(last, 'rb') as fh:
                    raw = fh.read()
                k = int.from_bytes(raw[:8], 'big')
                case = json.loads(raw[8:8 + k])
            except Exception:
                pass
            if sig in CRASH_SIGNALS and case is not None:
                r['violation'] = dict(case=case, message='the interpreter died with signal %d on this case' % sig)
            else:
                r['error'] = 'job ended with status %d without a result' % status
        results.append(r)
        if r['violation'] or r['error']:
            stop = True      # let running jobs finish, start no new ones
            queue = []
            # a violation is enough; end the others soon
            for p in list(running):
                try:
                    os.killpg(p, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
            for p in list(running):
                try:
                    os.waitpid(p, 0)
                except ChildProcessError:
                    pass
                ff, ss, oo, ll = running.pop(p)
                if os.path.exists(oo):
                    with open(oo) as fh:
                        results.append(json.load(fh))
    return results
