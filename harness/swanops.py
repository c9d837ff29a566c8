"""The conversion of SWAN output into wave conditions, run as a script, and the result loaded by the model."""
import os, runpy
import numpy as np
import pandas as pd
from impl import op, flo
from coreops import T0, scratch
from loadops import attempt, FORC, SEC
from hapuamod import loadmod
import impl, model

SCRIPT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(loadmod.__file__))), 'preprocessing', 'WaveDataFromSwanOutput.py')
# what is in the columns of the table (the first is the time as SWAN writes it)
COLS = 'Hsig Tm01 WavePeriod RTpeak Dir Dspr PkDir XWindv YWindv Ubot Urms Wlen_h Depth XTransp YTransp XWForce YWForce Radstr Setup'.split()
FROM = dict(Hsig='hs', WavePeriod='per', Dir='dir', Wlen_h='len', Depth='depth', XTransp='xt', YTransp='yt')


def table(rows, rng):
    head = ['%%  line %d of the header' % k for k in range(27)]
    out = []
    for r in rows:
        t = T0 + pd.Timedelta(seconds=r['t'])
        v = [repr(float(r[FROM[c]])) if c in FROM else '%.4f' % rng.uniform(-9, 99) for c in COLS]
        out.append(' '.join(['', t.strftime('%Y%m%d.%H%M%S'), '  %d' % t.year, '%3d' % t.month, '%3d' % t.day, '%3d' % t.hour, '%3d' % t.minute] + ['%16s' % x for x in v]))
    return '\n'.join(head + out) + '\n'


class Reads:
    """whatever file the script reads is this one"""
    names = ('read_table', 'read_csv', 'read_fwf')

    def __init__(self, f):
        self.f = f

    def __enter__(self):
        self.save = {n: getattr(pd, n) for n in self.names}
        for n, g in self.save.items():
            setattr(pd, n, lambda path=None, *a, g=g, **k: g(self.f, *a, **{x: v for x, v in k.items() if x not in ('filepath_or_buffer',)}))

    def __exit__(self, *a):
        for n, g in self.save.items():
            setattr(pd, n, g)


@op
def op_swan(s):
    with scratch() as d:
        src = os.path.join(d, 'swan.txt')
        with open(src, 'w') as f:
            f.write(table(s['rows'], np.random.default_rng(len(s['rows']))))
        for p in ('a/b', 'a/inputs', 'use'):
            os.makedirs(p)
        before = {os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs}
        os.chdir('a/b')
        try:
            with Reads(src):
                ns = runpy.run_path(SCRIPT, run_name='__main__')
        finally:
            os.chdir(d)
        new = sorted({os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs} - before)
        f, = new
        W = pd.read_csv(f)
        t = [SEC(x) for x in pd.to_datetime(W['DateTime'], format=model.STAMP)]
        out = dict(t=t, per=flo(W.WavePeriod), len=flo(W.Wlen_h), power=flo(W.WavePower), dir=flo(W.EDir_h), hs=flo(W.Hsig_Offshore), norm=float(ns.get('ShoreNormalDir', 128)))
        both = [t[0] - 3600., t[-1] + 86400.]
        c = model.config(OutputOptions=dict(OutFile=None, TsOutFile=None), Time=dict(StartTime=model.quoted(t[0]), EndTime=model.quoted(t[-1])))
        g = model.write(os.path.join(d, 'use'), c, flow=dict(t=both, v=[5., 6.]), sea=dict(t=both, v=[0., 1.]))
        os.replace(f, os.path.join(d, 'use', 'waves.csv'))
        L, kind, msg = attempt(lambda: loadmod.loadModel(g))
        out['loaded'] = dict(ok=L is not None, msg=msg[:200])
        if L is not None:
            w = L[2]
            out['loaded'].update(t=[SEC(x) for x in w.index], per=flo(w.WavePeriod), len=flo(w.Wlen_h), power=flo(w.WavePower), hs=flo(w.Hsig_Offshore))
        return dict(out=out)
