"""fork-based map over independent analysis tasks (terms are process-local: tasks return plain data)"""
import multiprocessing
import os
import resource
import signal
import time
import traceback

import terms
from terms import LIMIT_AT

_task = [None]


PER_TASK = 300
MEMORY = 6 << 30


class Overrun(Exception):
    pass


def _over(*a):
    raise Overrun("the time for one case is over")


def _init():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY + resource.getpagesize() * int(open("/proc/self/statm").read().split()[0]), resource.RLIM_INFINITY))
    signal.signal(signal.SIGALRM, _over)


def _go(x):
    try:
        if multiprocessing.current_process().daemon:
            signal.alarm(max(1, int(min(PER_TASK, LIMIT_AT - time.time()))))
        terms.CAP[:] = [terms.T._n + 3000000, terms.B.n + 2000000]
        try:
            return x, _task[0](x), None
        finally:
            if multiprocessing.current_process().daemon:
                signal.alarm(0)
    except BaseException as e:
        return x, None, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])


def pmap(f, xs, procs=8, chunk=1, maxtasks=None):
    """[(x, result, error)]"""
    xs = list(xs)
    if multiprocessing.current_process().daemon:
        return [(x, f(x), None) for x in xs]
    _task[0] = f
    if len(xs) <= 1 or os.environ.get("VERIF_SERIAL"):
        return [_go(x) for x in xs]
    with multiprocessing.get_context("fork").Pool(procs, initializer=_init, maxtasksperchild=maxtasks) as p:
        return list(p.imap_unordered(_go, xs, chunk))
