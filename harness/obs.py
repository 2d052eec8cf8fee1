'''Driver-side helpers: import the code under test from /repo, encode observations as integers,
run operations under a time limit.'''
import contextlib
import io
import logging
import math
import os
import random
import signal
import sys
import tempfile
import shutil
import warnings

from core import NAN, INF, BAD, NINF, REPO

warnings.filterwarnings('ignore')
logging.disable(logging.CRITICAL)
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

np.seterr(all='ignore')


class OpTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise OpTimeout()


@contextlib.contextmanager
def limit(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(seconds))
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def attempt(fn, seconds=60):
    '''(True, result, '') or (False, None, error-class-name)'''
    try:
        with limit(seconds):
            return True, fn(), ''
    except OpTimeout:
        return False, None, 'TIMEOUT'
    except KeyboardInterrupt:
        raise
    except BaseException as e:   # SystemExit included: the code under test must not end the check
        if isinstance(e, Exception) or isinstance(e, SystemExit):
            return False, None, type(e).__name__
        raise


@contextlib.contextmanager
def scratch(prefix='scratch'):
    '''cwd in a new scratch directory, removed afterwards'''
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix='verif_' + prefix)
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


# a unit for data that needs more digits than single precision has
FINE = 1.00000123456789


def fine(v, unit):
    '''integer encoding of a value given in some unit: a whole number of units, or BAD'''
    if unit == 1:
        return num(v)
    try:
        return num(float(v) / unit, 1, 1e-9)
    except (TypeError, ValueError):
        return BAD


def fines(vs, unit):
    try:
        return [fine(v, unit) for v in np.asarray(vs).ravel().tolist()]
    except Exception:
        return [BAD]


def num(v, scale=1, tol=1e-6):
    '''integer encoding of round(v*scale); with scale 1 the value must be integral'''
    try:
        v = float(v)
    except (TypeError, ValueError):
        return BAD
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return INF if v > 0 else NINF
    w = v * scale
    r = int(round(w))
    if abs(r) > 1900000000:
        return BAD
    if scale == 1 and abs(w - r) > max(tol, abs(w) * 1e-9):
        return BAD
    return r


def nums(vs, scale=1, tol=1e-6):
    try:
        return [num(v, scale, tol) for v in np.asarray(vs).ravel().tolist()]
    except Exception:
        return [BAD]


def mat(vs, scale=1, tol=1e-6):
    try:
        a = np.asarray(vs)
        if a.ndim == 1:
            a = a.reshape(1, -1)
        return [[num(v, scale, tol) for v in row] for row in a.reshape(a.shape[0], -1).tolist()]
    except Exception:
        return [[BAD]]


def pt(p):
    '''point as [x, y]; None is [-9, -9]; anything else [-8, -8]'''
    if p is None:
        return [-9, -9]
    try:
        x, y = p[0], p[1]
        if len(p) != 2 or int(x) != x or int(y) != y:
            return [-8, -8]
        return [int(x), int(y)]
    except Exception:
        return [-8, -8]


def pts(ps):
    try:
        return [pt(p) for p in ps]
    except Exception:
        return [[-8, -8]]


def integer(v):
    try:
        if isinstance(v, (bool, np.bool_)):
            return int(v)
        if int(v) == v and abs(int(v)) < 2000000000:
            return int(v)
    except Exception:
        pass
    return BAD


def ints(vs):
    try:
        return [integer(v) for v in list(vs)]
    except Exception:
        return [BAD]


class _Guarded:
    '''The drivers only use the code under test the way its users do: a driver that cannot
    finish because that code raised where the driver relies on it is itself an observation that
    no specification explains (operation "driver-crash").'''

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, item):
        try:
            return self.fn(item)
        except Exception as e:
            import traceback
            tb = traceback.format_exc()[-1500:]
            return dict(ev=[dict(op='driver-crash', err='{}: {}'.format(type(e).__name__, e)[:300])], note=tb)


def parallel_map(fn, items, procs=8, chunksize=1, children=False):
    '''Run the driver over independent scenarios with forked workers.
    children: the scenarios start processes of their own.'''
    import multiprocessing as mp
    fn = _Guarded(fn)
    if procs <= 1 or len(items) <= 1:
        return [fn(i) for i in items]
    ctx = mp.get_context('fork')
    if children:
        from concurrent.futures import ProcessPoolExecutor
        with ProcessPoolExecutor(procs, mp_context=ctx) as pool:
            return list(pool.map(fn, items, chunksize=chunksize))
    with ctx.Pool(procs) as pool:
        return pool.map(fn, items, chunksize=chunksize)


def warm_dtw():
    '''compile DTW once, before forking'''
    from tslearn.metrics import dtw
    dtw(np.array([1., 2.]), np.array([2., 3.]))
