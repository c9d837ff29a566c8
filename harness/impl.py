"""Runs scenarios on the real code and records one event per scenario.

   python impl.py IN.json OUT.jsonl
"""
import copy, json, os, signal, sys, math, logging, warnings
warnings.filterwarnings('ignore')
import numpy as np
import pandas as pd

REPO = os.environ.get('HAPUA_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
np.seterr(all='ignore')
logging.disable(logging.CRITICAL)

OPS = {}


def op(f):
    OPS[f.__name__.replace('op_', '')] = f
    return f


def A(x):
    return np.array([float(v) for v in x], dtype=float)


def enc(x):
    if isinstance(x, np.ma.MaskedArray):
        x = np.ma.filled(x.astype(float), np.nan)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return enc(x.item())
        return [enc(v) for v in x.tolist()]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    return x


def ix(x):
    return [int(v) for v in np.asarray(x).tolist()]


def flo(x):
    """array -> list of floats"""
    x = np.ma.filled(np.ma.asarray(x, dtype=float), np.nan)
    return [float(v) for v in np.atleast_1d(x).ravel().tolist()]


def one(x):
    v = np.ma.filled(np.ma.asarray(x, dtype=float), np.nan)
    return float(np.asarray(v).ravel()[0]) if np.asarray(v).size == 1 else flo(v)


def mutated(before, args):
    def same(a, b):
        if isinstance(a, np.ndarray):
            return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
        if isinstance(a, dict):
            return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
        if isinstance(a, float):
            return a == b or (a != a and b != b)
        if isinstance(a, (pd.Series, pd.DataFrame)):
            return a.equals(b)
        return a == b
    return [k for k in args if not same(before[k], args[k])]


def geomstate(s):
    Y = np.column_stack([A(s['y%d' % i]) for i in range(5)])
    Z = np.column_stack([A(s['z%d' % i]) for i in range(4)])
    return A(s['x']), Y, Z


class Timeout(Exception):
    pass


def main(inp, outp):
    import implops, coreops, outops, loadops, picops, swanops, cliops, hearops  # noqa  (register the operations)
    scns = json.load(open(inp))
    def onalarm(*a):
        raise Timeout('time limit')
    signal.signal(signal.SIGALRM, onalarm)
    with open(outp, 'w') as f:
        for s in scns:
            ev = dict(s)
            try:
                signal.setitimer(signal.ITIMER_REAL, s.get('limit', 20))
                res = OPS[s['op']](s)
                signal.setitimer(signal.ITIMER_REAL, 0)
                ev.update(enc(res))
            except BaseException as ex:  # recorded as the outcome of the event
                signal.setitimer(signal.ITIMER_REAL, 0)
                if isinstance(ex, KeyboardInterrupt):
                    raise
                ev['exc'] = type(ex).__name__
                ev['msg'] = str(ex)[:300]
                if os.environ.get('HAPUA_DEBUG'):
                    import traceback
                    traceback.print_exc()
            f.write(json.dumps(ev) + '\n')
            f.flush()


if __name__ == '__main__':
    sys.modules['impl'] = sys.modules['__main__']
    main(sys.argv[1], sys.argv[2])
