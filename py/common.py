"""Shared by the drivers: import of the code under test in a scratch directory,
number formatting, argument-integrity snapshots.

A driver executes operations on the real library and records what happened;
it passes no verdicts (the specification does)."""
import os, sys, json, io, contextlib, copy, warnings, resource
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
import numpy as np
# code that runs away in memory is answered by MemoryError, not by the sandbox
resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, resource.getrlimit(resource.RLIMIT_DATA)[1]))

REPO = os.environ.get('VERIF_REPO', '/repo')
_src = os.path.join(REPO, 'src')
sys.path.insert(0, _src)


class Hang(Exception):
    """a call that does not come back"""


HUNG = []


@contextlib.contextmanager
def limit(seconds=60):
    """of computing time, so that a busy machine makes no difference"""
    import signal

    def stop(*a):
        HUNG.append(1)
        raise Hang(f'no answer after {seconds} s of computing')
    old = signal.signal(signal.SIGPROF, stop)
    signal.setitimer(signal.ITIMER_PROF, seconds, 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def load():
    with contextlib.redirect_stdout(io.StringIO()):
        import pyRFtk
    p = os.path.realpath(pyRFtk.__file__)
    if not p.startswith(os.path.realpath(_src)):
        raise SystemExit(f'pyRFtk imported from {p}, expected below {_src}')
    return pyRFtk


def R(x):
    """a real number as decimal text; 'cplx' marks a complex value with im != 0"""
    try:
        z = complex(x)
    except Exception:
        return 'notanumber'
    if z.imag != 0:
        return 'notreal'
    return repr(float(z.real))


def C(z):
    try:
        z = complex(z)
    except Exception:
        return ['notanumber', 'notanumber']
    return [repr(float(z.real)), repr(float(z.imag))]


def M(a):
    """matrix (2-d) as rows of pairs; anything else becomes [] (with its shape logged)"""
    try:
        a = np.array(a, dtype=complex)
    except Exception:
        return []
    if a.ndim != 2:
        return []
    return [[C(z) for z in row] for row in a]


def shape(a):
    try:
        return [int(k) for k in np.shape(a)]
    except Exception:
        return [-1]


def freeze(x):
    """a comparable picture of an argument: containers and arrays by content, other
    objects by identity"""
    if isinstance(x, dict):
        return ('d', tuple((repr(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, np.ndarray):
        return ('a', x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (int, float, complex, str, bool, type(None))):
        return ('v', repr(x))
    return ('o', id(x))


class Args:
    """remembers the containers handed to a call, to see whether the call changed them"""
    def __init__(self):
        self.items = []

    def __call__(self, name, x):
        self.items.append((name, x, freeze(x)))
        return x

    def changed(self):
        return [n for n, x, f in self.items if freeze(x) != f]

    def scribble(self):
        for n, x, _ in self.items:
            scribble(x)


def scribble(x):
    """what a caller may do with his own containers after a call"""
    if isinstance(x, np.ndarray):
        try:
            x[...] = 7.7
        except Exception:
            pass
    elif isinstance(x, dict):
        for v in list(x.values()):
            if isinstance(v, (dict, list, np.ndarray)):
                scribble(v)
        x.clear()
        x['scribbled'] = 'x'
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list, np.ndarray)):
                scribble(v)
        x[:] = ['scribbled'] * len(x)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                yield


def rng(*key):
    return np.random.default_rng([int(k) & 0x7fffffff for k in key])


def rsig(x, n=6):
    """short decimal value (keeps records readable)"""
    return float(f'{x:.{n}g}')
