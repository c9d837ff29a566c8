"""A small hapua, parameters and forcing for demonstrations; run with the working directory the repository."""
import os, sys, logging, warnings, tempfile, copy
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')
logging.disable(logging.CRITICAL)
import matplotlib
matplotlib.use('Agg')
import numpy as np
import pandas as pd
from hapuamod import riv, coast, mor, out, core, loadmod, geom, synth
np.seterr(all='ignore')
NAN = np.nan
T0 = pd.Timestamp('2001-02-03 04:00')
sd = lambda s: pd.Timedelta(seconds=s)


def phys(**kw):
    p = dict(RhoSed=2650., RhoSea=1025., RhoRiv=1000., Gravity=9.81, VoidRatio=.4, GammaRatio=.5, WaveDataDepth=10., ClosureDepth=6., BeachSlope=.13, RiverSlope=.003, GrainSize=.018,
             CritShieldsStress=.0495, MPM_coef=3.97, MPM_exp=1.5, UpstreamLength=100., RiverWidth=60., RoughnessManning=.04, GrainRoughness=.035, WidthDepthRatio=30., BackshoreElev=10.,
             MaxOutletElev=-2., OT_coef=.0002, OT_exp=2., BeachTopElev=2., SpitWidth=10., TargetBarHeight=5.5, TargetBarWidth=90., MinOutletWidth=5., OutletSedSpreadDist=100.,
             OutletBankEroFac=.5, BarrierPermeability=.001, ShorelineErosionRate=0., Kcoef=.03)
    p.update(kw)
    p['K2coef'] = p['Kcoef'] / ((p['RhoSed'] - p['RhoSea']) * p['Gravity'] * (1 - p['VoidRatio']))
    p['BreakerCoef'] = 8.0 / (p['RhoSea'] * p['Gravity'] ** 1.5 * p['GammaRatio'] ** 2.0)
    p['BarRatSlope'] = (p['TargetBarHeight'] - p['BeachTopElev']) / (p['TargetBarWidth'] - p['SpitWidth'])
    p['BarRatInt'] = p['BeachTopElev'] - p['BarRatSlope'] * p['SpitWidth']
    return p


def num(**kw):
    p = dict(Dx=20., Beta=1.1, Theta=.7, Psi=.4, ErrTol=.0005, MaxIt=30, WarnTol=.1, MaxMorChange=.05)
    p.update(kw)
    return p


def times(**kw):
    p = dict(StartTime=T0, EndTime=T0 + sd(3600), HydDt=sd(5), MorDtMin=sd(15), MorDtMax=sd(960))
    p.update(kw)
    return p


class State:
    """transects -6..6; lagoon from -4 to 5; outlet from x=40 to x=70 (or mirrored)"""
    def __init__(s, e=(40., 70.), closed=False):
        n, k = 13, 6
        s.n, s.k, s.Dx = n, k, 20.
        s.X = (np.arange(n) - k) * s.Dx
        i = np.arange(n)
        s.Y = np.full((n, 5), NAN)
        s.Z = np.full((n, 4), NAN)
        s.Y[:, 4] = -90. + 2 * np.sin(i)
        s.Y[:, 3] = s.Y[:, 4]
        lag = (i >= 2) & (i <= 11)
        s.Y[lag, 3] = s.Y[lag, 4] + 30. + (i[lag] % 4) * 3
        s.Y[:, 0] = 10. + np.cos(i)
        s.Z[:, 0] = 4. + .1 * np.sin(i)
        s.Z[:, 3] = -.5 - .02 * i
        s.e = np.array(e, dtype=float)
        lo, hi = min(e), max(e)
        on = (s.X >= lo) & (s.X <= hi)
        s.Y[on, 1] = s.Y[on, 0] - 15.
        s.Y[on, 2] = s.Y[on, 1] - (14. + i[on] % 3)
        s.Z[on, 1] = -.9 - .03 * i[on]
        s.Z[on, 2] = s.Z[on, 0] - .2
        s.ew, s.ee = np.asarray(18.), np.asarray(-1.4)
        s.closed = closed
        s.rz = np.array([.3, .24, .18, .12, .06])
        s.rd, s.rv = np.full(5, 1.5), np.full(5, 1.2)
        s.lwl = 1.4 - .01 * i
        s.lv = np.full(n, .4)
        s.od, s.ov = np.full(n, NAN), np.full(n, NAN)
        s.od[on], s.ov[on] = 1.9, 1.3
        s.oed, s.oev = np.array([2.2, 2.8]), np.array([1.4, 1.])

    def assemble(s, p):
        return riv.assembleChannel(s.X, s.Y, s.Z, s.e, s.ew, s.ee, s.closed, s.rz, s.rd, s.rv, s.lwl, s.lv, s.od, s.ov, s.oed, s.oev, s.Dx, p)

    def step(s, p, num_, tim, lst=None, bed=None, cst=None, over=None, dt=60., wl=None):
        (dx, z, B, la, ll, h, v, on, oix, flag, closed) = s.assemble(p)
        lst = np.zeros(s.n - 1) if lst is None else lst
        bed = np.zeros(z.size - 1) if bed is None else bed
        cst = np.zeros(s.n) if cst is None else cst
        over = np.zeros(s.n, dtype=bool) if over is None else over
        return mor.updateMorphology(s.X, s.Y, s.Z, s.e, s.ew, s.ee, s.rz, on, oix, s.lwl if wl is None else wl, s.od, B, h, dx, flag, closed, lst, bed, cst, over, sd(dt), p, tim, num_)


def model(s, p, n_, tim, flow=60., sea=.2, waves=(9., 60., 4000., .3, 1.2), opts=None, hours=3):
    """what loadModel returns"""
    ix = pd.date_range(T0, periods=hours * 2 + 1, freq='30min')
    w = [np.full(ix.size, v) for v in waves]
    W = pd.DataFrame(dict(zip(['WavePeriod', 'Wlen_h', 'WavePower', 'EDir_h', 'Hsig_Offshore'], w)), index=ix)
    o = dict(OutFile='o.nc', TsOutFile='t.nc', OutInt=sd(600), TsOutInt=sd(300), LogInt=sd(3600), PlotInt=sd(0))
    o.update(opts or {})
    z = lambda a: np.zeros(np.size(a))
    return ('demo', pd.Series(np.full(ix.size, flow) if np.isscalar(flow) else flow(ix), index=ix), W, pd.Series(np.full(ix.size, sea) if np.isscalar(sea) else sea(ix), index=ix),
            np.zeros(2), 0., s.X, s.Y, s.Z, s.rz, s.e, s.ew, s.ee, z(s.rz), z(s.rz), z(s.X), z(s.X), z(s.X), z(s.X), np.zeros(2), np.zeros(2), s.closed, tim, p, n_, o)


def simulate(m, over=True):
    """core.main with these inputs, in a scratch directory"""
    save, cwd = loadmod.loadModel, os.getcwd()
    loadmod.loadModel = lambda f: m
    d = tempfile.mkdtemp()
    os.chdir(d)
    try:
        core.main('x.cnf', over)
        import netCDF4
        r = {}
        for f in ('o.nc', 't.nc'):
            nc = netCDF4.Dataset(f)
            r[f] = {v: np.ma.filled(nc[v][:].astype(float), NAN) for v in nc.variables}
            nc.close()
        return r['o.nc'], r['t.nc']
    finally:
        loadmod.loadModel = save
        os.chdir(cwd)
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def close(a, b, tol=1e-9):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=tol, equal_nan=True)


def check(ok, what):
    if not ok:
        print('FAILED:', what)
        sys.exit(1)


CNF = dict(
    SpatialInputs=dict(ShorelineLengthLeft=200, ShorelineLengthRight=200, BeachWidth=60),
    InitialConditions=dict(OutletWidth=15, OutletBed=-1, LagoonBed=-.5, BarrierElev=4),
    BoundaryConditions=dict(RiverFlow='q.csv', WaveConditions='w.csv', SeaLevel='s.csv'),
    Time=dict(StartTime='"2001-02-03 04:00"', EndTime='"2001-02-03 06:00"', HydDt=15, MorDtMin=15, MorDtMax=60),
    PhysicalParameters=dict(RhoSed=2650., RhoSea=1025., RhoRiv=1000., Gravity=9.81, VoidRatio=.4, GammaRatio=.5, WaveDataDepth=10., ClosureDepth=6., BeachSlope=.13, RiverSlope=.003,
                            GrainSize=.018, CritShieldsStress=.0495, MPM_coef=3.97, MPM_exp=1.5, UpstreamLength=100., RiverWidth=60., RoughnessManning=.04, GrainRoughness=.035,
                            WidthDepthRatio=30., BackshoreElev=10., MaxOutletElev=-2., OT_coef=.0002, OT_exp=2., BeachTopElev=2., SpitWidth=10., TargetBarHeight=5.5, TargetBarWidth=90.,
                            MinOutletWidth=5., OutletSedSpreadDist=100., OutletBankEroFac=.5, BarrierPermeability=.001, ShorelineErosionRate=0., Kcoef=.03),
    NumericalParameters=dict(Dx=20., Beta=1.1, Theta=.7, Psi=.4, ErrTol=.0005, MaxIt=30, WarnTol=.1, MaxMorChange=.05),
    OutputOptions=dict(OutInt=600, TsOutInt=300, LogInt=3600))


def table(name, cols, rows):
    """a forcing file: rows of a time and numbers"""
    with open(name, 'w') as f:
        f.write('DateTime,' + ','.join(cols) + '\n')
        for t, *v in rows:
            f.write((T0 + sd(60 * t)).strftime('%d/%m/%Y %H:%M') + ',' + ','.join(repr(float(x)) for x in v) + '\n')


WCOLS = ['WavePeriod', 'Wlen_h', 'WavePower', 'EDir_h', 'Hsig_Offshore']


def load(over=None, q=None, w=None, s=None, shapes=None, sub=None):
    """loadModel on a model written to a scratch directory"""
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    try:
        os.chdir(d)
        table('q.csv', ['Flow'], q or [(-60, 50), (240, 70)])
        table('w.csv', WCOLS, w or [(-60, 9, 60, 4000, 10, 1.2), (240, 9, 60, 4000, 20, 1.2)])
        table('s.csv', ['SeaLevel'], s or [(-60, .1), (240, .3)])
        c = copy.deepcopy(CNF)
        for k, v in (over or {}).items():
            c.setdefault(k, {}).update(v)
        for k, pts in (shapes or {}).items():
            import shapefile
            wr = shapefile.Writer(os.path.join(d, k), shapeType=1 if k == 'river' else 3)
            wr.field('n', 'N')
            wr.point(*pts) if k == 'river' else wr.line([[list(map(float, p)) for p in pts]])
            wr.record(1)
            wr.close()
        with open('m.cnf', 'w') as f:
            f.write('ModelName = demo\n')
            for k, v in c.items():
                f.write('[%s]\n' % k)
                for a, b in v.items():
                    if isinstance(b, dict):
                        continue
                    f.write('%s = %s\n' % (a, b))
                for a, b in v.items():
                    if isinstance(b, dict):
                        f.write('[[%s]]\n' % a + ''.join('%s = %s\n' % x for x in b.items()))
        os.chdir(cwd)
        return loadmod.loadModel(os.path.join(d, 'm.cnf'))
    finally:
        os.chdir(cwd)
        import shutil
        shutil.rmtree(d)


def refused(f):
    try:
        f()
    except Exception as e:
        return str(e)
    return ''
