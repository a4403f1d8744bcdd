"""A clock the checks set: what time.time() and its like say inside the code under test."""
import contextlib
import sys
import time


class Clock:
    def __init__(self):
        self.now = 1.7e9        # as the real one; multiples of 1/64 s are exact

    def __call__(self):
        return self.now

    @contextlib.contextmanager
    def patched(self):
        real = {n: getattr(time, n) for n in ('time', 'monotonic', 'perf_counter')}
        places = [(m, k, v) for name, m in list(sys.modules.items()) if name == 'cpnest' or name.startswith('cpnest.') for k, v in list(vars(m).items()) if any(v is r for r in real.values())]
        # whoever formats dates wants a real clock: only the clocks are replaced
        for n in real:
            setattr(time, n, self)
        for m, k, _ in places:
            setattr(m, k, self)
        try:
            yield self
        finally:
            for n, f in real.items():
                setattr(time, n, f)
            for m, k, v in places:
                setattr(m, k, v)


class Watch:
    """When, on that clock, a file was last replaced or rewritten."""

    def __init__(self, path, clock):
        self.path, self.clock = path, clock
        self.stamp = self.look()
        self.times = []

    def look(self):
        import os
        try:
            s = os.stat(self.path)
        except OSError:
            return None
        return s.st_ino, s.st_mtime_ns, s.st_size

    def check(self):
        """to be called before the clock moves; True if the file changed since the last call"""
        s = self.look()
        if s == self.stamp:
            return False
        self.stamp = s
        self.times.append(self.clock.now)
        return True
