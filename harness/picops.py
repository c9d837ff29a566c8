"""Pictures: what is put into figures, and which figures are put into a film."""
import copy, os, runpy, sys
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib import animation
import numpy as np
import pandas as pd
from impl import op, A, flo, mutated, geomstate
from coreops import T0, scratch, at, patched
from hapuamod import visualise
import outops

PLAN = dict(shore='ShoreLine', dots='ShoreDots', channel='ChannelLine', outlet='OutletLine', lagoon='LagoonLine', cliff='CliffLine', river='RiverLine')
FILLS = dict(water='WaterFill', hatch='CliffFill')
LONG = dict(bed='BedLine', water='WaterLine', energy='EnergyLine', width='WidthLine', flow='FlowLine', vel='VelLine', froude='FrLine')


def line(ln):
    return dict(x=flo(np.ravel(ln.get_xdata(orig=True))), y=flo(np.ravel(ln.get_ydata(orig=True))))


def fill(p):
    v = np.asarray(p.get_xy(), dtype=float)
    return dict(x=flo(v[:, 0]), y=flo(v[:, 1]))


def clock(text):
    if not text:
        return -7.
    return (pd.to_datetime(text, dayfirst=True) - T0).total_seconds()


def read_plan(M):
    o = {k: line(M[h]) for k, h in PLAN.items()}
    o.update({k: fill(M[h]) for k, h in FILLS.items()})
    ax = M['PlanAx']
    o['title'] = clock(ax.get_title(loc='right'))
    o['shown'] = all(M[h].axes is ax and M[h].get_visible() for h in list(PLAN.values()) + list(FILLS.values()))
    if 'CrestLine' in M:
        o['crest'] = line(M['CrestLine'])
    for k, h in (('lst', 'LstQuiver'), ('cst', 'CstQuiver')):
        if h in M:
            q = M[h]
            o[k] = dict(x=flo(q.X), y=flo(q.Y), u=flo(q.U), v=flo(q.V))
    if 'WaveArrow' in M:
        v = np.asarray(M['WaveArrow'].get_xy(), dtype=float)
        base = np.array([0., 200.])
        tip = v[np.argmax(np.hypot(*(v - base).T))]
        o['wave'] = dict(base=flo(base), tip=flo(tip))
    return o


def read_long(L):
    o = {k: line(L[h]) for k, h in LONG.items()}
    o['ylim'] = flo(L['FlowAx'].get_ylim())
    t = L['RivFig']._suptitle
    o['title'] = clock(t.get_text() if t is not None else '')
    if L.get('QsLine') is not None:
        o['qs'] = line(L['QsLine'])
    return o


def read_across(T):
    return dict(ground=line(T['GroundLine']), water=line(T['WaterLine']), gfill=fill(T['GroundFill']), wfill=fill(T['WaterFill']), title=clock(T['TransAx'].get_title(loc='right')))


def figures(f):
    def g(s):
        plt.close('all')
        try:
            return f(s)
        finally:
            plt.close('all')
    g.__name__ = f.__name__
    return g


def stamp(w):
    return dict(PlotTime=at(w['time'])) if w['time'] != -1 else {}


@op
@figures
def op_plan(s):
    def given(g, w):
        x, Y, Z = geomstate(g)
        a = dict(ShoreX=x, ShoreY=Y, OutletEndX=A(g['e']), OutletEndWidth=g['ew'], OutletChanIx=np.array(g['oix'], dtype=int))
        k = dict(Closed=g['closed'], **stamp(w))
        if w['full']:
            k.update(ShoreZ=Z, WavePower=w['power'], EDir_h=w['dir'], LST=A(w['lst']), CST=A(w['cst']))
        return a, k
    mut = []
    a, k = given(s['s'], s['w'])
    if not k['Closed']:
        k.pop('Closed')
    before = copy.deepcopy((a, k))
    M = visualise.modelView(*a.values(), s['D']['rw'], s['D']['sw'], **k)
    first = read_plan(M)
    mut += mutated(before[0], a) + mutated(before[1], k)
    a, k = given(s['t'], s['w2'])
    before = copy.deepcopy((a, k))
    visualise.updateModelView(M, *a.values(), **k)
    mut += mutated(before[0], a) + mutated(before[1], k)
    return dict(out=dict(first=first, then=read_plan(M)), mut=mut)


@op
@figures
def op_long(s):
    mut = []
    def args(c):
        a = dict(dx=A(c['dx']), z=A(c['z']), b=A(c['b']), h=A(c['h']), v=A(c['v']))
        if s['bed']:
            a['qs'] = A(c['qs'])
        return a
    def call(f, c, *pre):
        a = args(c)
        was = copy.deepcopy(a)
        r = f(*pre, *a.values(), **stamp(c))
        mut.extend(mutated(was, a))
        return r
    L = call(visualise.longSection, s['c'])
    first = read_long(L)
    call(visualise.updateLongSection, s['d'], L)
    return dict(out=dict(first=first, then=read_long(L)), mut=mut)


@op
@figures
def op_across(s):
    mut = []
    def args(g, w):
        x, Y, Z = geomstate(g)
        return dict(x=x, Y=Y, Z=Z, lwl=A(w['lwl']), owl=A(w['owl']), sea=w['sea'])
    P = s['P']
    a = args(s['s'], s['w'])
    was = copy.deepcopy(a)
    T = visualise.newTransectFig(*a.values(), P['BeachSlope'], P['BackshoreElev'], P['ClosureDepth'], P['BeachTopElev'], s['at'])
    mut += mutated(was, a)
    first = read_across(T)
    a = args(s['t'], s['w2'])
    was = copy.deepcopy(a)
    visualise.updateTransectFig(T, a['Y'], a['Z'], a['lwl'], a['owl'], a['sea'], **stamp(s['w2']))
    mut += mutated(was, a)
    return dict(out=dict(first=first, then=read_across(T)), mut=mut)


@op
@figures
def op_curves(s):
    def frame(b):
        return pd.DataFrame(dict(Qin=A(b['qin']), Qout=A(b['qout']), SeaLevel=A(b['sea'])), index=pd.DatetimeIndex([at(t) for t in b['t']]))
    def series(ln):
        t = [(pd.Timestamp(v) - T0).total_seconds() for v in ln.get_xdata(orig=True)]
        return dict(x=t, y=flo(ln.get_ydata(orig=True)))
    B = visualise.bdyCndFig(frame(s['b']))
    read = lambda: dict(qin=series(B[3]), qout=series(B[4]), sea=series(B[5]))
    first = read()
    visualise.updateBdyCndFig(B, frame(s['d']))
    return dict(out=dict(first=first, then=read()))


@op
@figures
def op_map(s):
    x, Y, Z = geomstate(s['s'])
    a = dict(x=x, Y=Y, o=A(s['o']), norm=s['norm'])
    was = copy.deepcopy(a)
    plt.figure()
    visualise.mapView(*a.values())
    o = {ln.get_label(): line(ln) for ln in plt.gca().lines}
    return dict(out={k: o[k] for k in ('Shore', 'Lagoon', 'Cliff', 'River', 'Origin')}, mut=mutated(was, a))


@op
@figures
def op_film(s):
    from hapuamod import animate
    shot, shown, made = [], {}, {}

    class Recorder(animation.AbstractMovieWriter):
        @classmethod
        def isAvailable(cls):
            return True

        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            made['fps'] = float(self.fps)

        def setup(self, fig, outfile, dpi=None):
            super().setup(fig, outfile, dpi)
            made['file'] = str(outfile)

        def grab_frame(self, **k):
            kind, h = shown[id(self.fig)]
            shot.append(dict(plan=read_plan, long=read_long, across=read_across)[kind](h))

        def finish(self):
            open(self.outfile, 'w').close()

    def keep(kind, name, fig):
        f = getattr(visualise, name)

        def g(*a, **k):
            h = f(*a, **k)
            shown[id(h[fig])] = kind, h
            return h
        return visualise, name, g

    animation.writers.register('recorder')(Recorder)
    old = matplotlib.rcParams['animation.writer'], sys.argv, matplotlib.rcParams['savefig.bbox']
    with scratch():
        outops.new('full', 'r.nc', s['h'], True)
        for r in s['recs']:
            outops.write('full', 'r.nc', r)
        _, h, recs = outops.dump('r.nc', True)
        was = outops.raw('r.nc')
        wraps = [keep('plan', 'modelView', 'PlanFig'), keep('long', 'longSection', 'RivFig'), keep('across', 'newTransectFig', 'TransFig')]
        saved = [(m, n, getattr(m, n)) for m, n, _ in wraps]
        failed = raised = ''
        try:
            for m, n, g in wraps:
                setattr(m, n, g)
            matplotlib.rcParams['animation.writer'] = 'recorder'
            try:
                if s['cli']:
                    argv = ['animate', 'r.nc', s['film']]
                    for key, word in (('first', '-s'), ('end', '-e'), ('step', '-r'), ('fps', '-f')):
                        if s['given'][key]:
                            argv += [word, repr(s[key])]
                    if s['kind'] == 'across':
                        argv += ['-t', repr(s['at'])]
                    if s['kind'] == 'long' or s['both']:
                        argv += ['-l']
                    if s['area']:
                        argv += ['-a'] + [repr(v) for v in s['area']]
                    sys.argv = argv
                    import logging
                    hs = list(logging.getLogger().handlers)
                    try:
                        runpy.run_module('hapuamod.animate', run_name='__main__')
                    finally:
                        logging.getLogger().handlers[:] = hs
                else:
                    k = {}
                    for key, word in (('first', 'StartTimestep'), ('end', 'EndTimestep'), ('step', 'ResampleInt'), ('fps', 'FrameRate')):
                        if s['given'][key]:
                            k[word] = s[key]
                    if s['kind'] == 'across':
                        k['TransectX'] = s['at']
                    if s['kind'] == 'long' or s['both']:
                        k['Longsection'] = True
                    if s['area']:
                        k['AreaOfInterest'] = tuple(s['area'])
                    animate.main('r.nc', s['film'], **k)
            except BaseException as ex:
                if type(ex).__name__ == 'Timeout' or isinstance(ex, KeyboardInterrupt):
                    raise
                if os.environ.get('HAPUA_DEBUG'):
                    import traceback
                    traceback.print_exc()
                failed, raised = True, '%s %s' % (type(ex).__name__, ex)
        finally:
            for m, n, f in saved:
                setattr(m, n, f)
            matplotlib.rcParams['animation.writer'], sys.argv = old[:2]
        return dict(out=dict(failed=bool(failed), raised=raised[:200], frames=shot, nframes=len(shot), fps=made.get('fps', 0.), file=made.get('file', ''), kept=outops.raw('r.nc') == was,
                             recs=recs, filex=h['coords']['transect_x'], attrs=h['attrs']))
