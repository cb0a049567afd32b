"""Executors handed to the code under check.

Installed before eckity is imported.  MODE:
  real   the standard library's executors
  sync   every task runs when submitted, in submission order
  sched  tasks stay pending; whenever the code waits, the explorer decides
         which pending task completes next (all completion orders)
In sched mode a process pool's isolation is modelled by pickling the function,
its arguments and its result.
"""
import concurrent.futures as cf
import concurrent.futures.process as cfp
import concurrent.futures.thread as cft
import contextlib
import pickle

OrigThread, OrigProcess = cft.ThreadPoolExecutor, cfp.ProcessPoolExecutor
orig_as_completed, orig_wait = cf.as_completed, cf.wait


class _State:
    mode = "sync"
    ch = None
    created = []
    order = []       # completion order seen, as task serial numbers
    used = []        # (kind, workers) of every executor that was given a task
    runner = None    # optional: run a batch of tasks as interleaved threads


S = _State()


@contextlib.contextmanager
def mode(m, ch=None, runner=None):
    old = (S.mode, S.ch, S.created, S.order, S.runner, S.used)
    S.mode, S.ch, S.created, S.order, S.runner, S.used = m, ch, [], [], runner, []
    try:
        yield S
    finally:
        S.mode, S.ch, S.created, S.order, S.runner, S.used = old


def _iso(x):
    return pickle.loads(pickle.dumps(x))


class MCFuture(cf.Future):
    def __init__(self, ex, serial, fn, a, k):
        super().__init__()
        self._ex, self._serial, self._task = ex, serial, (fn, a, k)

    def _drive(self):
        while not super().done():
            self._ex._step()

    def result(self, timeout=None):
        self._drive()
        return super().result(0)

    def exception(self, timeout=None):
        self._drive()
        return super().exception(0)

    def run_now(self):
        fn, a, k = self._task
        if not self.set_running_or_notify_cancel():
            return
        S.order.append(self._serial)
        try:
            if self._ex.isolated:
                r = _iso(fn(*a, **k))
            else:
                r = fn(*a, **k)
        except BaseException as e:
            self.set_exception(e)
        else:
            self.set_result(r)


class MCExecutor(cf.Executor):
    isolated = False
    Orig = None

    def __init__(self, max_workers=None, *args, **kw):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._max_workers = max_workers
        self._mode = S.mode
        self._closed = False
        self._pending = []
        self._serial = 0
        self._real = None
        if S.mode == "real":
            self._real = self.Orig(max_workers, *args, **kw)
        S.created.append(self)

    def _note(self):
        k = ("process" if self.isolated else "thread", self._max_workers)
        if k not in S.used:
            S.used.append(k)

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def submit(self, fn, /, *args, **kwargs):
        self._note()
        if self._real is not None:
            return self._real.submit(fn, *args, **kwargs)
        if self._closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        if self.isolated and S.mode == "sched":
            fn, args, kwargs = _iso((fn, args, kwargs))
        f = MCFuture(self, self._serial, fn, args, kwargs)
        self._serial += 1
        if S.mode == "sched":
            self._pending.append(f)
        else:
            f.run_now()
        return f

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        self._note()
        if self._real is not None:
            return self._real.map(fn, *iterables, timeout=timeout, chunksize=chunksize)
        fs = [self.submit(fn, *args) for args in zip(*iterables)]

        def it():
            for f in fs:
                yield f.result()
        return it()

    def _step(self):
        """complete one more pending task (the explorer's choice)"""
        live = [f for f in self._pending if not cf.Future.done(f)]
        if not live:
            raise RuntimeError("deadlock: waiting for a task that is not pending")
        if S.runner is not None:
            S.runner(live)
            self._pending = []
            return
        i = S.ch.choose(len(live), "completes") if S.ch is not None else 0
        f = live[i]
        self._pending = [g for g in live if g is not f]
        f.run_now()

    def shutdown(self, wait=True, *, cancel_futures=False):
        if self._real is not None:
            self._real.shutdown(wait=wait, cancel_futures=cancel_futures)
        self._closed = True
        if cancel_futures:
            for f in self._pending:
                f.cancel()
            self._pending = []
        while self._pending:
            self._step()


class MCThreadPoolExecutor(MCExecutor):
    isolated = False
    Orig = OrigThread


class MCProcessPoolExecutor(MCExecutor):
    isolated = True
    Orig = OrigProcess


def as_completed(fs, timeout=None):
    fs = list(dict.fromkeys(fs))
    if not any(isinstance(f, MCFuture) for f in fs):
        yield from orig_as_completed(fs, timeout)
        return
    left = list(fs)
    while left:
        done = [f for f in left if cf.Future.done(f)]
        if not done:
            left[0]._ex._step()
            continue
        # which finished task is reported first is not specified
        i = S.ch.choose(len(done), "reported") if S.ch is not None else 0
        f = done[i]
        left.remove(f)
        yield f


def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    if any(isinstance(f, MCFuture) for f in fs):
        for f in fs:
            if isinstance(f, MCFuture):
                f._drive()
            if return_when == "FIRST_COMPLETED":
                break
    return orig_wait(fs, timeout, return_when)


def install():
    cft.ThreadPoolExecutor = MCThreadPoolExecutor
    cfp.ProcessPoolExecutor = MCProcessPoolExecutor
    cf.ThreadPoolExecutor = MCThreadPoolExecutor
    cf.ProcessPoolExecutor = MCProcessPoolExecutor
    cf.as_completed = as_completed
    cf.wait = wait
    cf._base.as_completed = as_completed
    cf._base.wait = wait
