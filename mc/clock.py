"""The wall clock as the code under check sees it."""
import contextlib
import time

real = time.time
_fixed = []


def _time():
    return _fixed[-1] if _fixed else real()


def install():
    time.time = _time


@contextlib.contextmanager
def at(t):
    _fixed.append(t)
    try:
        yield
    finally:
        _fixed.pop()
