"""Process pools: every task runs on its own copy of its arguments (pickling) and
results come back in order (map, imap, starmap)."""
import sa


class _Result:
    def __init__(self, v):
        self._v = v

    def get(self, timeout=None):
        return self._v


class Pool:
    def __init__(self, processes=None, *a, **k):
        self._n = processes

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, func, iterable, chunksize=None):
        return [sa.snapshot(func(sa.snapshot(a))) for a in iterable]

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable))

    def imap_unordered(self, func, iterable, chunksize=1):
        out = self.map(func, iterable)
        n = len(out)
        return iter([sa.unordered(out, i) for i in range(n)])

    def starmap(self, func, iterable, chunksize=None):
        return [sa.snapshot(func(*sa.snapshot(a))) for a in iterable]

    def apply(self, func, args=(), kwds={}):
        return sa.snapshot(func(*sa.snapshot(args), **kwds))

    def apply_async(self, func, args=(), kwds={}):
        return _Result(self.apply(func, args, kwds))

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass


def cpu_count():
    return sa.integer("cpus", lo=1)
