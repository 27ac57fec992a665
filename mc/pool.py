"""The process-pool seam.

create_MV_ss spreads work over multiprocessing pools.  All pool constructors
are replaced, before the library is imported, by a pool that runs in the
calling process.  The hook `policy` decides what a map call does, so C05 can
explore every assignment of tasks to workers and every completion order; the
default runs tasks in order.
"""
import multiprocessing
import multiprocessing.context
import multiprocessing.pool

OrigPool = multiprocessing.pool.Pool
real = None            # number of processes: use genuine pools instead
policy = None          # callable(func, list_of_args) -> list of results
completion = None      # callable(list) -> list, order of unordered results
calls = 0


def _execute(f, items):
    global calls
    calls += 1
    if policy is not None:
        return policy(f, items)
    return [f(x) for x in items]


def _complete(results):
    """No order is promised: by default the least convenient legal one."""
    if completion is not None:
        return completion(list(results))
    return list(results)[::-1]


class _Result(object):
    def __init__(self, v):
        self._v = v

    def get(self, timeout=None):
        return self._v

    def wait(self, timeout=None):
        return None

    def ready(self):
        return True

    def successful(self):
        return True


class SeamPool(object):
    """In-process stand-in for multiprocessing.Pool."""

    def __init__(self, processes=None, initializer=None, initargs=(),
                 *a, **k):
        self._processes = processes or 8
        if initializer is not None:
            initializer(*initargs)

    def map(self, f, it, chunksize=None):
        return _execute(f, list(it))

    def imap(self, f, it, chunksize=1):
        return iter(self.map(f, it))

    def imap_unordered(self, f, it, chunksize=1):
        return iter(_complete(self.map(f, it)))

    def starmap(self, f, it, chunksize=None):
        return _execute(_Star(f), [tuple(x) for x in it])

    def map_async(self, f, it, chunksize=None, callback=None,
                  error_callback=None):
        r = self.map(f, it)
        if callback:
            callback(r)
        return _Result(r)

    def starmap_async(self, f, it, chunksize=None, callback=None,
                      error_callback=None):
        r = self.starmap(f, it)
        if callback:
            callback(r)
        return _Result(r)

    def apply(self, f, args=(), kwds={}):
        return _execute(_Apply(f, kwds), [tuple(args)])[0]

    def apply_async(self, f, args=(), kwds={}, callback=None,
                    error_callback=None):
        r = self.apply(f, args, kwds)
        if callback:
            callback(r)
        return _Result(r)

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    # concurrent.futures interface
    def submit(self, f, *args, **kwds):
        return _Future(self.apply(f, args, kwds))

    def shutdown(self, wait=True, **k):
        pass


class SeamExecutor(SeamPool):
    def map(self, f, *its, **k):
        return iter(_execute(_Star(f), list(zip(*its))))


class _Future(object):
    def __init__(self, v):
        self._v = v

    def result(self, timeout=None):
        return self._v

    def done(self):
        return True

    def exception(self, timeout=None):
        return None

    def add_done_callback(self, f):
        f(self)


class _Star(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, args):
        return self.f(*args)


class _Apply(object):
    def __init__(self, f, kwds):
        self.f = f
        self.kwds = kwds

    def __call__(self, args):
        return self.f(*args, **self.kwds)


def _make(*a, **k):
    if a and isinstance(a[0], multiprocessing.context.BaseContext):
        a = a[1:]
    if real:
        k = dict(zip(("processes", "initializer", "initargs"), a), **k)
        k["processes"] = real
        k.pop("context", None)
        return OrigPool(**k)
    return SeamPool(*a, **k)


def install():
    if multiprocessing.Pool is _make:
        return
    import concurrent.futures
    import concurrent.futures.process
    import concurrent.futures.thread
    multiprocessing.Pool = _make
    multiprocessing.context.BaseContext.Pool = (
        lambda self, *a, **k: _make(*a, **k))
    multiprocessing.pool.Pool = SeamPool
    multiprocessing.pool.ThreadPool = SeamPool
    for m in (concurrent.futures, concurrent.futures.process,
              concurrent.futures.thread):
        if hasattr(m, "ProcessPoolExecutor"):
            m.ProcessPoolExecutor = SeamExecutor
        if hasattr(m, "ThreadPoolExecutor"):
            m.ThreadPoolExecutor = SeamExecutor
    _orig_as_completed = concurrent.futures.as_completed

    def as_completed(fs, timeout=None):
        fs = list(fs)
        if fs and all(isinstance(f, _Future) for f in fs):
            return iter(_complete(fs))
        return _orig_as_completed(fs, timeout)
    concurrent.futures.as_completed = as_completed


def use_real(k):
    """Genuine multiprocessing pools with k processes (None: the seam)."""
    global real
    real = k
    # the genuine class refers to itself by its module-level name
    multiprocessing.pool.Pool = OrigPool if k else SeamPool
