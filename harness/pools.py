"""Worker pools of the code under test, run inline.

A task is pickled together with its arguments and run on the unpickled copy, so it has
the isolation a worker process would give it (no effect on the caller's objects), and
all its random choices stay visible to the oracle.  `real()` restores the genuine
process pools for the checks that are about them."""
import concurrent.futures as cf
import concurrent.futures.process
import concurrent.futures.thread
import contextlib
import multiprocessing as mp
import multiprocessing.context as mpc
import multiprocessing.pool as mpp
import pickle

_ORIG = {}
STATE = {"inline": True}


def _call(fn, args, kw=None):
    f, a, k = pickle.loads(pickle.dumps((fn, args, kw or {})))
    return pickle.loads(pickle.dumps(f(*a, **k)))


class InlineExecutor(cf.Executor):
    call = staticmethod(_call)

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self._init = (initializer, initargs)
        if initializer is not None:
            initializer(*initargs)

    def submit(self, fn, *args, **kw):
        fut = cf.Future()
        try:
            fut.set_result(self.call(fn, args, kw))
        except BaseException as e:      # delivered by result(), as a real pool does
            fut.set_exception(e)
        return fut

    def map(self, fn, *its, timeout=None, chunksize=1, **kw):
        futs = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in futs)

    def shutdown(self, wait=True, **kw):
        pass


class InlineThreads(InlineExecutor):
    """Threads share the caller's objects."""

    call = staticmethod(lambda fn, args, kw=None: fn(*args, **(kw or {})))


class _Async:
    def __init__(self, fn, args, kw):
        self._ok, self._v = True, None
        try:
            self._v = _call(fn, args, kw)
        except BaseException as e:
            self._ok, self._v = False, e

    def get(self, timeout=None):
        if not self._ok:
            raise self._v
        return self._v

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self._ok


class InlinePool:
    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        if initializer is not None:
            initializer(*initargs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, fn, it, chunksize=None):
        return [_call(fn, (x,)) for x in it]

    def imap(self, fn, it, chunksize=1):
        return iter([_call(fn, (x,)) for x in it])

    def imap_unordered(self, fn, it, chunksize=1):      # any order is legal: the least convenient one
        return iter([_call(fn, (x,)) for x in it][::-1])

    def starmap(self, fn, it, chunksize=None):
        return [_call(fn, tuple(x)) for x in it]

    def apply(self, fn, args=(), kwds=None):
        return _call(fn, tuple(args), kwds)

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        r = _Async(fn, tuple(args), kwds)
        if r._ok and callback:
            callback(r._v)
        return r

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        items = list(it)

        class R(_Async):
            def __init__(self):
                self._ok, self._v = True, None
                try:
                    self._v = [_call(fn, (x,)) for x in items]
                except BaseException as e:
                    self._ok, self._v = False, e
        return R()

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self.map_async(_Star(fn), it)

    def close(self):
        pass
    terminate = join = close


class _Star:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, a):
        return self.fn(*a)


class _Switch:
    """Callable that is the inline class or the real one."""

    def __init__(self, inline, real):
        self._i, self._r = inline, real

    def __call__(self, *a, **k):
        return (self._i if STATE["inline"] else self._r)(*a, **k)

    def __getattr__(self, name):
        return getattr(self.__dict__["_r"], name)


def install():
    if _ORIG:
        return
    _ORIG.update(ppe=cf.ProcessPoolExecutor, pool=mp.Pool, ctxpool=mpc.BaseContext.Pool,
                 tpe=cf.ThreadPoolExecutor)
    cf.ProcessPoolExecutor = _Switch(InlineExecutor, _ORIG["ppe"])
    cf.process.ProcessPoolExecutor = cf.ProcessPoolExecutor
    cf.ThreadPoolExecutor = _Switch(InlineThreads, _ORIG["tpe"])
    mp.Pool = _Switch(InlinePool, _ORIG["pool"])
    mpp_pool = mpp.Pool
    mpp.Pool = _Switch(InlinePool, mpp_pool)

    def ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
        if STATE["inline"]:
            return InlinePool(processes, initializer, initargs)
        return mpp_pool(processes, initializer, initargs, maxtasksperchild,
                        context=self.get_context())
    mpc.BaseContext.Pool = ctx_pool


@contextlib.contextmanager
def real():
    STATE["inline"] = False
    try:
        yield
    finally:
        STATE["inline"] = True
