"""Time limits: an analysis that takes too long is given up and what it was to
decide is left undecided."""
import functools
import signal
import time


class Late(BaseException):
    pass


_open = []


def _alarm(*a):
    now = time.time()
    for l in _open:
        if l.end <= now:
            raise Late(l)
    _arm()


def _arm():
    if _open:
        signal.setitimer(signal.ITIMER_REAL, max(0.01, min(l.end for l in _open) - time.time()))
    else:
        signal.setitimer(signal.ITIMER_REAL, 0)


class limit:
    def __init__(s, seconds=None, end=None):
        s.end = end if end is not None else time.time() + seconds
        s.hit = False

    def __enter__(s):
        signal.signal(signal.SIGALRM, _alarm)
        _open.append(s)
        _arm()
        return s

    def __exit__(s, et, e, tb):
        while _open and _open.pop() is not s:
            pass
        _arm()
        if et is Late and e.args[0] is s:
            s.hit = True
            return True
        return False


def bounded(seconds, default):
    """The function returns default() if it takes longer."""
    def deco(f):
        @functools.wraps(f)
        def g(*a, **k):
            with limit(seconds):
                return f(*a, **k)
            return default()
        return g
    return deco
