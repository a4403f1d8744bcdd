"""C16: a run touches nothing outside its output folder, whatever the folder is called.

The run takes place in a forked child without privileges (user nobody) that owns only a scratch directory, so a stray
deletion or a folder name a shell would run can reach nothing real."""
import fnmatch
import json
import os
import re
import shutil
import sys
import tempfile

from hypothesis import strategies as st

from vf.engine import Facet, HarnessError, check
from vf.gen import seeds
from vf.real import execute
import cpnest.plot  # noqa: F401  (modules are loaded before privileges are dropped)
import matplotlib.backends.backend_pdf  # noqa: F401

PROPERTY = 'C16'
ASSUMPTIONS = ['the run is started by an ordinary user; multiprocessing may use the temporary directory and /dev/shm',
               'files of the user are those whose names are not ones cpnest gives to its own output']
NOBODY = 65534

TOKENS = ['a', 'b', 'out', 'run 1', ' ', 'x y', "it's", '"q"', '$(touch pwn)', '`touch pwn`', '; touch pwn ;', '&', '|', '>', '<', '*', '?', '[ab]', '{0}', '{output}', '%s', '%d', '%(x)s',
          '~', '-rf', '-', '--help', '#', '\\', '\n', '\t', 'é', '日', '.', '..x', '$HOME', '!', '(1)', '=', ',', 'mcmc_chain_1.dat', 'prior_samples_3.dat', 'chain', '.dat', 'posterior.dat', '2']


@st.composite
def names(draw):
    s = ''.join(draw(st.lists(st.sampled_from(TOKENS), min_size=1, max_size=3)))
    s = draw(st.sampled_from(['', '', '', '', ' '])) + s + draw(st.sampled_from(['', '', '', '', ' ', '\n', '.', '~']))
    return 'out' + s if s in ('.', '..') else s


# ---------------------------------------------------------------- in the child

def prepare(scratch, log, relative):
    """become nobody and write down what is opened for writing, removed, renamed and run"""
    def f():
        os.umask(0o022)
        os.setgroups([])
        os.setresgid(NOBODY, NOBODY, NOBODY)
        os.setresuid(NOBODY, NOBODY, NOBODY)
        os.environ['HOME'] = os.path.join(scratch, 'home')
        os.environ['TMPDIR'] = os.path.join(scratch, 'tmp')
        tempfile.tempdir = os.environ['TMPDIR']
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)

        def note(event, path):
            if isinstance(path, bytes):
                path = os.fsdecode(path)
            if isinstance(path, (str, os.PathLike)):
                p = os.path.abspath(os.fspath(path))
                p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
                os.write(fd, (json.dumps([event, p]) + '\n').encode())

        def hook(event, args):
            try:
                if event == 'open':
                    path, mode, flags = args
                    if (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) or (isinstance(mode, str) and set(mode) & set('wax+')):
                        note('open', path)
                elif event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.truncate', 'os.chmod', 'os.chown', 'os.utime', 'shutil.rmtree', 'os.setxattr'):
                    note(event, args[0])
                elif event == 'os.rename':
                    note('os.rename from', args[0])
                    note('os.rename to', args[1])
                elif event in ('os.link', 'os.symlink', 'shutil.move', 'shutil.copyfile'):
                    note(event, args[1])
                elif event in ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn'):
                    os.write(fd, (json.dumps(['command', repr(args[:2])[:300]]) + '\n').encode())
            except Exception as e:
                os.write(fd, (json.dumps(['error', repr(e)]) + '\n').encode())
        sys.addaudithook(hook)
        if relative is not None:
            os.chdir(relative)
    return f


# ---------------------------------------------------------------- from outside

def snapshot(top, skip):
    out = {}
    for base, dirs, files in os.walk(top):
        rel = os.path.relpath(base, top)
        if rel in skip:
            dirs[:] = []
            continue
        for d in dirs:
            p = os.path.normpath(os.path.join(rel, d))
            if p not in skip:
                st_ = os.lstat(os.path.join(top, p))
                out[p] = ('dir' if not os.path.islink(os.path.join(top, p)) else os.readlink(os.path.join(top, p)), st_.st_mode, st_.st_ino)
        for f in files:
            p = os.path.normpath(os.path.join(rel, f))
            q = os.path.join(top, p)
            st_ = os.lstat(q)
            with open(q, 'rb') as fh:
                out[p] = (fh.read(), st_.st_mode, st_.st_ino, st_.st_mtime_ns)
    return out


def changed(a, b):
    return sorted(['removed ' + repr(k) for k in a if k not in b] + ['created ' + repr(k) for k in b if k not in a] + ['modified ' + repr(k) for k in a if k in b and a[k] != b[k]])


MINE = ['prior_samples_mine.dat', 'mcmc_chain_x.dat', 'my_prior_samples_1.dat', 'my_mcmc_chain_1.dat', 'prior_samples_1.dat.bak', 'mcmc_chain_12.data', 'mcmc_chain_.dat', 'prior_samples_.dat', 'prior_samples_12.txt', 'mcmc_chain_3.dat~',
        'mcmc_chain_4_5.dat', 'prior_samples_6.5.dat', 'prior_samples_-7.dat', 'notes.txt', 'mcmc.dat.old', 'sampler_x.pkl', 'header.txt.bak', 'chain.txt', 'chain_a_b.txt', 'cpnest.log.1', 'nested_samples.dat~', 'prior.txt', 'posterior.csv', '.hidden',
        'xmcmc_chain_8.dat', 'mcmc_chain_9xdat', 'PRIOR_SAMPLES_1.DAT', 'tmp', 'data.dat', 'samples.dat', 'a b', 'old_posterior.dat', 'evidence.txt', 'mcmc_chain_8.dat\n', 'prior_samples_mcmc_chain_1.dat', 'plot.pdf', 'sampler.pkl', 'resume.pkl', 'run.tmp']
OWN = r'mcmc_chain_\d+\.dat|prior_samples_\d+\.dat'


def plant(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.lexists(path):
        return
    with open(path, 'w') as f:
        f.write('x logL logPrior\n%s\n' % text)


def decoys(case, w, outrel):
    """files a run could hit if it took its output folder for something else"""
    pids = range(1, 4)
    own = ['mcmc_chain_%d.dat' % k for k in pids] + ['prior_samples_%d.dat' % k for k in pids] + ['header.txt', 'chain_10_1.txt', 'posterior.dat', 'cpnest.log', 'nested_samples.dat', 'prior.dat', 'mcmc.dat',
                                                                                                 'nested_sampler_resume.pkl', 'sampler_0.pkl', 'insertion_indices.dat', 'chain_10_1.txt_evidence.txt', 'logXlogL.png']
    where = {'.', 'a', 'b', 'sib', outrel + '_old', outrel + '2', 'x' + os.path.basename(outrel)}
    for piece in re.split(r'[\s;&|<>"\'`$()*?\[\]{}\\~#!]+', outrel):
        if piece and piece != outrel:
            where.add(piece)
    parent = os.path.dirname(outrel)
    while parent:
        where.add(parent)
        parent = os.path.dirname(parent)
    out = os.path.join(w, outrel)
    for k, d in enumerate(sorted(where)):
        p = os.path.normpath(os.path.join(w, d))
        if p == out or p.startswith(out + os.sep) or not p.startswith(w):
            continue
        if case['decoy_files'] and k % 2 and d not in ('.',) and not out.startswith(p + os.sep) and not os.path.exists(p):
            plant(p, d)
            continue
        try:
            for n in own:
                q = os.path.join(p, n)
                if out == q or out.startswith(q + os.sep):
                    continue
                plant(os.path.join(p, n), d)
        except (NotADirectoryError, FileExistsError):
            pass


def run(case, ctx):
    base = os.path.realpath(tempfile.mkdtemp(prefix='vf-c16.', dir='/tmp'))
    try:
        w = os.path.join(base, 'w')
        for n in ('w', 'w/cwd', 'tmp', 'home'):
            os.mkdir(os.path.join(base, n))
        cwd = os.path.join(w, 'cwd')
        parts = case['parts']
        outrel = os.path.join(*parts)
        form = case['form']
        root = cwd if form in ('relative', 'dot', 'slash', 'here') else w
        real = os.path.join(root, outrel)            # where files should go
        arg = {'relative': outrel, 'dot': './' + outrel, 'slash': outrel + '/', 'here': './', 'up': '../' + outrel, 'absolute': real, 'link': os.path.join(w, 'link')}[form]
        if form == 'here':
            real = cwd
            outrel = '.'
        decoys(case, root, outrel) if form != 'here' else decoys(case, w, 'nowhere')
        if case['exists'] or form in ('link', 'here'):
            os.makedirs(real, exist_ok=True)
            for n in case['mine']:
                plant(os.path.join(real, n), 'mine')
            plant(os.path.join(real, 'sub', 'mcmc_chain_5.dat'), 'mine')
        elif len(parts) > 1 and case['half']:
            os.makedirs(os.path.dirname(real), exist_ok=True)
        if form == 'link':
            os.symlink(real, os.path.join(w, 'link'))
        for b, ds, fs in os.walk(base):
            for n in [b] + [os.path.join(b, f) for f in fs + ds]:
                os.lchown(n, NOBODY, NOBODY)
        skip = {'tmp'}
        before = snapshot(base, skip)
        inside = os.path.relpath(real, base)

        def outside(s):
            # the output folder, what is in it, and the folders that lead to it
            return {k: v for k, v in s.items() if not (k == inside or k.startswith(inside + os.sep)) and not (v[0] == 'dir' and inside.startswith(k + os.sep))}
        anc = {k: v for k, v in before.items() if inside.startswith(k + os.sep)}
        mine = {k: v for k, v in before.items() if k.startswith(inside + os.sep)}
        for i, trig in enumerate([case['trigger'], None] if case['trigger'] else [None]):
            log = os.path.join(base, 'tmp', 'audit%d' % i)
            kw = dict(prior_sampling=case['prior_sampling'], resume=case['resume'] or case['trigger'] is not None)
            if case['interval']:
                kw['periodic_checkpoint_interval'] = 0.05
            c = dict(case, kw=kw, output=arg, trigger=trig, prepare=prepare(base, log, None), cwd=cwd)
            r = execute(c, os.path.join(base, 'tmp'), 'run%d' % i)
            what = 'run %d with output=%r' % (i, arg)
            check(r['end'] == 'exited' and (r['code'] == 0 or trig and r['code'] == 130), '%s fails: %s %r %s', what, r['end'], r['code'], (r.get('error') or r['log'])[-1500:])
            after = snapshot(base, skip)
            diff = changed(outside(before), outside(after))
            check(not diff, '%s touches files outside: %s', what, diff[:5])
            check(all(k in after for k in anc), '%s removed a folder above it', what)
            diff = [x for x in changed(mine, {k: v for k, v in after.items() if k in mine})]
            check(not diff, '%s touches files of the user in the folder: %s', what, diff[:5])
            check(os.path.isdir(real), '%s: the folder was not created', what)
            # every access
            touched = set()
            with open(log) as f:
                for line in f:
                    event, p = json.loads(line)
                    if event == 'error':
                        raise HarnessError(p)
                    if event == 'command':
                        ctx.label('runs a command')
                        continue
                    if p.startswith(os.path.join(base, 'tmp') + os.sep) or p.startswith('/dev/'):
                        continue
                    rel = os.path.relpath(p, base)
                    if rel == inside or rel.startswith(inside + os.sep):
                        check(rel not in mine or mine[rel][0] == 'dir', '%s: %s of a file of the user: %r', what, event, p)
                        touched.add(rel)
                    else:
                        check(event == 'os.mkdir' and (inside.startswith(rel + os.sep) or os.path.realpath(p) == real), '%s: %s outside the folder: %r', what, event, p)
            check(touched, '%s wrote nothing in the folder', what)
            files = [f for f in os.listdir(real)]
            if r['code'] == 0:
                temp = [f for f in files if re.fullmatch(OWN, f) and os.path.join(inside, f) not in mine]
                merged = case['verbose'] >= 3 or case['prior_sampling']
                if case['prior_sampling']:
                    temp = [f for f in temp if not f.startswith('mcmc')] if case['verbose'] >= 3 else temp
                check(not temp, '%s: temporary files of the samplers are left: %s', what, temp)
                check(any(fnmatch.fnmatch(f, 'chain_*.txt') for f in files) and 'header.txt' in files and 'cpnest.log' in files, '%s: the files of the run are not in the folder: %s', what, files)
                if case['verbose'] >= 2:
                    check({'posterior.dat', 'nested_samples.dat'} <= set(files), '%s: the files of the run are not in the folder: %s', what, files)
                check(r['exitcodes'] == [0] * case['nthreads'], '%s: the samplers ended with %s: %s', what, r['exitcodes'], r['log'][-1500:])
                if merged:
                    check('prior.dat' in files or case['verbose'] < 3, '%s: no prior.dat', what)
                    check('mcmc.dat' in files or case['verbose'] < 3 or case['prior_sampling'], '%s: no mcmc.dat', what)
                    ctx.label('merged')
                break
            ctx.label('interrupted and resumed')
            move = case['move']
            if move == 'cwd':
                cwd = os.path.join(w, 'cwd2')
                os.mkdir(cwd)
                os.lchown(cwd, NOBODY, NOBODY)
                arg = real if form == 'absolute' else os.path.relpath(real, cwd)
                ctx.label('resumed from another directory')
            elif move in ('rename', 'copy') and form not in ('here', 'link'):
                new = os.path.join(w, 'moved to', 'here')
                os.mkdir(os.path.dirname(new))
                if move == 'rename':
                    os.rename(real, new)
                else:
                    shutil.copytree(real, new, symlinks=True)
                for b, ds, fs in os.walk(os.path.dirname(new)):
                    for n in [b] + [os.path.join(b, f) for f in fs + ds]:
                        os.lchown(n, NOBODY, NOBODY)
                names_ = [os.path.relpath(k, inside) for k in mine]
                real, inside = new, os.path.relpath(new, base)
                arg = os.path.relpath(real, cwd) if form != 'absolute' else real
                ctx.label('resumed in a folder moved' if move == 'rename' else 'resumed in a copy of the folder')
            after = snapshot(base, skip)
            if move in ('rename', 'copy') and form not in ('here', 'link'):
                mine = {k: after[k] for k in (os.path.normpath(os.path.join(inside, n)) for n in names_)}
                anc = {}
            before = after
        ctx.label(form, 'verbose %d' % case['verbose'])
        ctx.nontrivial(bool(re.search(r'[^A-Za-z0-9_./]', outrel)) or len(parts) > 1 or bool(case['mine']))
    finally:
        shutil.rmtree(base, ignore_errors=True)


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    nsli = draw(st.integers(0, n))
    v = draw(st.sampled_from([0, 1, 3, 3, 3, 2]))
    parts = draw(st.lists(names(), min_size=1, max_size=3)) if draw(st.integers(0, 3)) == 0 else [draw(names())]
    form = draw(st.sampled_from(['relative', 'relative', 'relative', 'relative', 'absolute', 'dot', 'slash', 'up', 'link', 'here']))
    trig = None
    if draw(st.integers(0, 2)) == 0:
        trig = dict(proc=0, at=draw(st.integers(30, 600)), sig=draw(st.sampled_from(['SIGINT', 'SIGTERM'])), group=False)
    return dict(parts=parts, form=form, exists=draw(st.booleans()), half=draw(st.booleans()), decoy_files=draw(st.booleans()), mine=draw(st.lists(st.sampled_from(MINE), max_size=6, unique=True)),
                dim=1, bounds=[[0.0, 1.0]], centre=[0.5], prior=draw(st.sampled_from(['flat', 'linear'])), like=draw(st.sampled_from(['gauss', 'dead'])), sig=0.3, nlive=10, poolsize=20, maxmcmc=draw(st.integers(5, 10)),
                nthreads=n, nham=0, nsli=nsli, verbose=v, seed=draw(st.integers(0, 9)), rs=draw(seeds), prior_sampling=draw(st.sampled_from([False, False, False, True])),
                move=draw(st.sampled_from([None, 'cwd', 'rename', 'copy'])), resume=draw(st.booleans()), interval=draw(st.sampled_from([False, False, True])), trigger=trig)


FACETS = [Facet('folder', cases(), run, 144, 4000, shards=8, shrink=False, budget_s=240, rule='complete (or interrupted and resumed) runs by an unprivileged user in folders with generated names, with decoys around; non-trivial = an unusual or nested name, or files of the user in the folder')]
