"""Writing complete model inputs (configuration, series, shapefiles) into a scratch directory."""
import copy, os
import numpy as np
import pandas as pd

T0 = pd.Timestamp('2000-03-01 06:00')
DEFAULT = dict(
    ModelName="'model under test'",
    BoundaryConditions=dict(RiverFlow='flow.csv', WaveConditions='waves.csv', SeaLevel='sea.csv'),
    ShotnoiseHydrographParameters={}, HarmonicTideParameters={}, HotStart={},
    SpatialInputs=dict(ShorelineLengthLeft=100., ShorelineLengthRight=100., BeachWidth=40.),
    InitialConditions=dict(OutletWidth=20., OutletBed=-1., LagoonBed=-1., BarrierElev=3.5),
    Time=dict(StartTime="'1 Mar 2000 06:00'", EndTime="'1 Mar 2000 07:00'", HydDt=5., MorDtMin=15., MorDtMax=960.),
    PhysicalParameters=dict(Kcoef=.017, RhoSed=2650., RhoSea=1025., RhoRiv=1000., VoidRatio=.4, Gravity=9.81, GammaRatio=.5, WaveDataDepth=10.,
                            ClosureDepth=5., BeachSlope=.13, RiverSlope=.003, GrainSize=.018, CritShieldsStress=.0495, MPM_coef=3.97, MPM_exp=1.5,
                            UpstreamLength=100., RiverWidth=60., RoughnessManning=.04, GrainRoughness=.035, WidthDepthRatio=30., BackshoreElev=10.,
                            MaxOutletElev=-2., OT_coef=.00015, OT_exp=2., BeachTopElev=2., SpitWidth=10., TargetBarHeight=5.5, TargetBarWidth=90.,
                            MinOutletWidth=1., OutletSedSpreadDist=100., OutletBankEroFac=.5, BarrierPermeability=.001, ShorelineErosionRate=0.),
    NumericalParameters=dict(Dx=10., Beta=1., Theta=.7, Psi=.4, ErrTol=.001, MaxIt=30, WarnTol=.1, MaxMorChange=.1),
    OutputOptions=dict(OutFile='o.nc', TsOutFile='t.nc', OutInt=600., TsOutInt=300., LogInt=3600., PlotInt=0.))
NESTED = {'ShotnoiseHydrographParameters': 'BoundaryConditions', 'HarmonicTideParameters': 'BoundaryConditions'}
STAMP = '%d/%m/%Y %H:%M'


def config(**over):
    c = copy.deepcopy(DEFAULT)
    for sec, kv in over.items():
        if isinstance(kv, dict):
            c.setdefault(sec, {}).update(kv)
        else:
            c[sec] = kv
    return c


def text(c):
    out = ['ModelName = %s' % c['ModelName']] if c.get('ModelName') is not None else []
    for sec, kv in c.items():
        if sec == 'ModelName' or sec in NESTED or kv is None:
            continue
        out.append('[%s]' % sec)
        out += ['%s = %s' % (k, v) for k, v in kv.items() if v is not None]
        for n, s in NESTED.items():
            if s == sec and c.get(n):
                out.append('    [[%s]]' % n)
                out += ['    %s = %s' % (k, v) for k, v in c[n].items() if v is not None]
    return '\n'.join(out) + '\n'


def stamp(sec):
    return (T0 + pd.Timedelta(seconds=sec)).strftime(STAMP)


def quoted(sec):
    return "'%s'" % (T0 + pd.Timedelta(seconds=sec)).strftime('%d %b %Y %H:%M:%S')


def write(d, c, flow=None, sea=None, waves=None, shapes=None, name='m.cnf'):
    """series: dict of t (seconds since T0, whole minutes) and values"""
    def csv(fn, t, cols):
        with open(os.path.join(d, fn), 'w') as f:
            f.write('DateTime,%s\n' % ','.join(cols))
            for i, s in enumerate(t):
                f.write(stamp(s) + ',' + ','.join(repr(float(v[i])) for v in cols.values()) + '\n')
    if flow:
        csv('flow.csv', flow['t'], dict(Flow=flow['v']))
    if sea:
        csv('sea.csv', sea['t'], dict(SeaLevel=sea['v']))
    if waves:
        csv('waves.csv', waves['t'], dict(WavePeriod=waves['period'], Wlen_h=waves['length'], WavePower=waves['power'], EDir_h=waves['dir'],
                                         Hsig_Offshore=waves['hs']))
    if shapes:
        import shapefile
        for n, pts in shapes.items():
            w = shapefile.Writer(os.path.join(d, n), shapeType=1 if n == 'river' else 3)
            w.field('id', 'N')
            if n == 'river':
                w.point(*pts[0])
            else:
                w.line([[list(p) for p in pts]])
            w.record(1)
            w.close()
    with open(os.path.join(d, name), 'w') as f:
        f.write(text(c))
    return os.path.join(d, name)
