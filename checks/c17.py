"""C17: the log file records exactly what is logged inside its context (model-based)."""
import io
import logging
import os
import tempfile

from hypothesis import strategies as st

import cpnest
from vf.engine import Facet, check, sut
from cpnest.utils import LogFile, StreamHandler

PROPERTY = 'C17'
LV = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
THRESH = {0: 50, 1: 30, 2: 20, 3: 10}
ROOTS = ['cpnest', 'cpnest.cpnest', 'cpnest.sampler', 'cpnest.NestedSampling']
LOGGERS = ROOTS + ['cpnest.cpnest.CPNest', 'cpnest.sampler.Sampler', 'cpnest.NestedSampling.NestedSampler', 'cpnest.nest2pos', 'other', 'cpnestx.y']


class Boom(Exception):
    pass


def covers(root, name):
    return name == root or name.startswith(root + '.')


def fds(path):
    n = 0
    for f in os.listdir('/proc/self/fd'):
        try:
            n += os.readlink('/proc/self/fd/' + f) == path
        except OSError:
            pass
    return n


def marks(path):
    if not os.path.exists(path):
        return []
    out = []
    with open(path) as f:
        for line in f.read().splitlines():
            if 'Setting verbosity' in line and '<MARK' not in line:
                continue
            out.append(line)
    return out


def run(case, ctx):
    import shutil
    d = os.path.realpath(tempfile.mkdtemp(dir='.'))
    root_handlers = {r: list(logging.getLogger(r).handlers) for r in ROOTS}
    con = cpnest.console_handler
    stream, old_stream, old_level = io.StringIO(), con.stream, con.level
    con.setStream(stream)
    con.set_verbosity(case['console'])
    verb = case['console']
    opened = []
    try:
        files = []
        want = {}
        for k, (p, v, r) in enumerate(case['files']):
            path = os.path.join(d, 'log%d.txt' % p)
            kw = {} if r == 'cpnest' and k % 2 else dict(loggername=r)
            with sut('LogFile(...)'):
                lf = LogFile(path, verbose=v, **kw) if not (v == 0 and k % 2) else LogFile(path, **kw)
            files.append(dict(lf=lf, path=path, v=v, root=r, open=False))
            want.setdefault(path, [])
        want_con = []
        n = 0
        reentered = 0
        for j, (op, a, b) in enumerate(case['ops']):
            when = 'after step %d (%s)' % (j, op)
            f = files[a % len(files)]
            busy = any(g['open'] and g['path'] == f['path'] for g in files)
            if op == 'enter' and not f['open'] and not busy:
                with sut('entering the context'):
                    got = f['lf'].__enter__() if b % 3 else (f['lf'].open() or f['lf'])
                check(got is f['lf'], 'entering the context returned %r', got)
                f['open'] = True
                reentered += bool(want[f['path']])
                opened.append(f)
            elif op == 'exit' and f['open']:
                with sut('leaving the context'):
                    r = f['lf'].__exit__(None, None, None) if b % 3 else f['lf'].close()
                f['open'] = False
                opened.remove(f)
            elif op == 'raise' and not f['open'] and not busy:
                name = LOGGERS[b % len(LOGGERS)]
                msg = '<MARK %d>' % n
                n += 1
                caught = False
                try:
                    with f['lf']:
                        f['open'] = True
                        emit(name, 'CRITICAL', msg, files, want)
                        if covers('cpnest', name):
                            want_con.append((msg, name))
                        raise Boom()
                except Boom:
                    caught = True
                f['open'] = False
                check(caught, 'the exception raised inside the context was swallowed')
                ctx.label('left by an exception')
            elif op == 'verbosity':
                verb = b % 4
                with sut('set_verbosity'):
                    con.set_verbosity(verb)
                    got = con.get_verbosity()
                check(got == verb, 'console verbosity is reported as %r after setting %d', got, verb)
            elif op == 'log':
                lvl = sorted(LV)[a % len(LV)]
                name = LOGGERS[b % len(LOGGERS)]
                msg = '<MARK %d>' % n
                n += 1
                emit(name, lvl, msg, files, want)
                if covers('cpnest', name) and LV[lvl] >= THRESH[verb]:
                    want_con.append((msg, name))
            for p, w in want.items():
                got = marks(p)
                check(len(got) == len(w), '%s: the file has %d lines, expected %d: %s against %s', when, len(got), len(w), got[-3:], w[-3:])
                for line, (m, nm) in zip(got, w):
                    check(m in line and nm in line, '%s: line %r, expected message %s of %s', when, line, m, nm)
                nopen = sum(g['open'] and g['path'] == p for g in files)
                check(fds(p) == nopen, '%s: %d descriptors on the log file, %d contexts are open', when, fds(p), nopen)
            for r in ROOTS:
                nopen = sum(g['open'] and g['root'] == r for g in files)
                check(len(logging.getLogger(r).handlers) == len(root_handlers[r]) + nopen, '%s: logger %s has %d handlers, expected %d', when, r,
                      len(logging.getLogger(r).handlers), len(root_handlers[r]) + nopen)
        got = [l for l in stream.getvalue().splitlines() if '<MARK' in l]
        check(len(got) == len(want_con), 'the console shows %d records, expected %d', len(got), len(want_con))
        for line, (m, nm) in zip(got, want_con):
            check(m in line and nm in line, 'console line %r, expected message %s of %s', line, m, nm)
        tot = sum(map(len, want.values()))
        ctx.nontrivial(tot >= 2 and n > tot)
        ctx.label('re-entered' if reentered else 'entered once', 'recorded' if tot else 'nothing recorded', 'several files' if len(files) > 1 else 'one file')
    finally:
        for r in ROOTS:
            lg = logging.getLogger(r)
            for h in list(lg.handlers):
                if h not in root_handlers[r]:
                    lg.removeHandler(h)
                    h.close()
        con.setStream(old_stream)
        con.setLevel(old_level)
        shutil.rmtree(d)


def emit(name, lvl, msg, files, want):
    with sut('logging'):
        logging.getLogger(name).log(LV[lvl], 'something %s happened', msg)
    for g in files:
        if g['open'] and covers(g['root'], name) and LV[lvl] >= THRESH[g['v']]:
            want[g['path']].append((msg, name))


def run_handler(case, ctx):
    """Stand-alone handlers: level and format follow the verbosity."""
    s = io.StringIO()
    with sut('StreamHandler(...)'):
        h = StreamHandler(verbose=case['v0'], stream=s)
    lg = logging.getLogger('cpnest.plot')
    lg.addHandler(h)
    try:
        want = []
        v = case['v0']
        check(h.get_verbosity() == v, 'verbosity %r reported, %d given', h.get_verbosity(), v)
        for k, (op, a) in enumerate(case['ops']):
            if op:
                v = a % 4
                with sut('set_verbosity'):
                    h.set_verbosity(v)
                check(h.get_verbosity() == v, 'verbosity %r reported, %d given', h.get_verbosity(), v)
            else:
                lvl = sorted(LV)[a % 5]
                lg.log(LV[lvl], '<MARK %d>', k)
                if LV[lvl] >= THRESH[v]:
                    want.append('<MARK %d>' % k)
        got = [l for l in s.getvalue().splitlines() if '<MARK' in l]
        check(len(got) == len(want) and all(w in g for w, g in zip(want, got)), 'records shown %s, expected %s', got, want)
        ctx.nontrivial(any(op for op, _ in case['ops']) and len(want) > 0)
    finally:
        lg.removeHandler(h)


I = st.integers(0, 59)
ops = st.one_of(st.tuples(st.just('log'), I, I), st.tuples(st.just('log'), st.sampled_from([1, 4]), st.integers(0, 7)),
                st.tuples(st.sampled_from(['enter', 'enter', 'exit', 'raise', 'verbosity']), I, I))
FACETS = [
    Facet('contexts', st.fixed_dictionaries(dict(files=st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3), st.sampled_from(['cpnest'] * 3 + ROOTS)), min_size=1, max_size=4),
                                                 console=st.integers(0, 3), ops=st.lists(ops, min_size=8, max_size=40))),
          run, 1200, 20000, shards=6, rule='histories of entering, leaving, raising, logging and verbosity changes over up to four log files, all files compared with a model after each step; non-trivial = at least two records written and one not'),
    Facet('handler', st.fixed_dictionaries(dict(v0=st.integers(0, 3), ops=st.lists(st.tuples(st.booleans(), I), min_size=2, max_size=20))),
          run_handler, 600, 6000, rule='verbosity changes of a handler; non-trivial = a change and a record shown'),
]
