"""Loading: configurations, series, geometry, generated series and coordinates."""
import copy, inspect, os, random, re
import numpy as np
import pandas as pd
from impl import op, A, flo, one
from coreops import T0, scratch, at, sd
from outops import new, write
from hapuamod import geom, loadmod, synth
import model

SEC = lambda t: (pd.Timestamp(t) - T0).total_seconds()
SYNTH = {}


def attempt(f):
    """(result, what was raised, message)"""
    try:
        return f(), '', ''
    except Exception as ex:
        m = getattr(ex, 'message', None) or str(ex)
        return None, type(ex).__name__, m


def words(m):
    return sorted(set(re.findall(r'[A-Za-z_0-9]+', m)))


def num(d):
    return {k: float(v) for k, v in d.items() if isinstance(v, (int, float))}


def state(L):
    """the part of what is loaded that is the state to start from"""
    (X, Y, Z, rz, e, ew, ee, rwl, rv, lwl, lv, od, ov, oed, oev, closed) = L[6:22]
    g = dict(x=X, e=e)
    g.update({'y%d' % k: Y[:, k] for k in range(5)})
    g.update({'z%d' % k: Z[:, k] for k in range(4)})
    g = {k: flo(v) for k, v in g.items()}
    g.update(ew=one(ew), ee=one(ee))
    return dict(g=g, rz=flo(rz), origin=flo(L[4]), norm=float(L[5]), closed=bool(closed),
                hyd={k: flo(v) for k, v in dict(rwl=rwl, rv=rv, lwl=lwl, lv=lv, od=od, ov=ov, oed=oed, oev=oev).items()})


def series(L):
    w = L[2]
    ts = lambda x: [SEC(t) for t in x.index]
    return dict(flow=dict(t=ts(L[1]), cols=dict(v=flo(L[1].values))), sea=dict(t=ts(L[3]), cols=dict(v=flo(L[3].values))),
                waves=dict(t=ts(w), cols=dict(period=flo(w.WavePeriod), length=flo(w.Wlen_h), power=flo(w.WavePower), hs=flo(w.Hsig_Offshore)))), dict(t=ts(w), v=flo(w.EDir_h))


def lines(given):
    """the text of a configuration with these entries"""
    c, top = {}, []
    for g in given:
        if g['s'] == '':
            top.append('%s = %s' % (g['k'], g['text']))
        else:
            c.setdefault(g['s'], []).append('%s = %s' % (g['k'], g['text']))
    out = top
    for s in c:
        if s in model.NESTED:
            continue
        out += ['[%s]' % s] + c[s]
        for n, p in model.NESTED.items():
            if p == s and n in c:
                out += ['    [[%s]]' % n] + ['    ' + x for x in c[n]]
    return '\n'.join(out) + '\n'


FORC = dict(flow=dict(t=[-3600., 86400.], v=[5., 6.]), sea=dict(t=[-3600., 86400.], v=[0., 1.]),
            waves=dict(t=[-3600., 86400.], period=[8., 9.], length=[70., 80.], power=[1e4, 2e4], dir=[0., 10.], hs=[1., 2.]))


class Standin:
    """in the place of the generators of series: what they are asked for, and a series that covers everything"""
    def __init__(self):
        self.asked = {}

    def __enter__(self):
        self.save = {n: getattr(synth, n) for n in ('shotNoise', 'harmonicTide')}
        for n, f in self.save.items():
            setattr(synth, n, self.make(n, f))
        return self

    def make(self, n, real):
        def f(*a, **k):
            b = inspect.signature(real).bind(*a, **k)
            b.apply_defaults()
            self.asked[n] = list(b.arguments.values())
            return pd.Series([1., 2.], index=pd.DatetimeIndex([T0 - pd.Timedelta(days=900), T0 + pd.Timedelta(days=900)]))
        return f

    def __exit__(self, *a):
        for n, f in self.save.items():
            setattr(synth, n, f)


def days(x):
    return x.total_seconds() / 86400


@op
def op_config(s):
    vals = []

    def put(sec, k, v):
        if v is None:
            vals.append(dict(s=sec, k=k, form='none', v=0., text=''))
        elif isinstance(v, str):
            vals.append(dict(s=sec, k=k, form='text', v=0., text=v))
        else:
            vals.append(dict(s=sec, k=k, form='num', v=float(v), text=''))
    with scratch() as d, Standin() as st:
        model.write(d, model.config(), **FORC)
        name = s['stem'] + '.cnf'
        with open(name, 'w') as f:
            f.write(lines(s['given']))
        L, kind, msg = attempt(lambda: loadmod.loadModel(name))
        o = dict(ok=kind == '', refused=kind == 'ConfigError', kind=kind, msg=msg[:300], words=words(msg), vals=vals, derived={})
        if L is None:
            return dict(out=o)
        tim, par, nm, oo = L[22:26]
        put('', 'ModelName', L[0])
        for k, v in par.items():
            (o['derived'].__setitem__(k, float(v)) if k in ('K2coef', 'BreakerCoef', 'BarRatSlope', 'BarRatInt') else put('PhysicalParameters', k, v))
        for k, v in nm.items():
            put('NumericalParameters', k, v)
        for k in ('HydDt', 'MorDtMin', 'MorDtMax'):
            put('Time', k, tim[k].total_seconds())
        for k in ('OutInt', 'TsOutInt', 'LogInt', 'PlotInt'):
            put('OutputOptions', k, oo[k].total_seconds())
        for k in ('OutFile', 'TsOutFile'):
            put('OutputOptions', k, oo[k])
        put('InitialConditions', 'OutletWidth', one(L[11]))
        put('InitialConditions', 'OutletBed', one(L[12]))
        put('InitialConditions', 'LagoonBed', L[8][0, 3])
        put('InitialConditions', 'BarrierElev', L[8][0, 0])
        if L[6][0] != 0:
            put('SpatialInputs', 'BeachWidth', -L[7][0, 3])
        if 'shotNoise' in st.asked:
            (a, b, i, gap, inc, k1, p, k2, rise, calc, seed) = st.asked['shotNoise']
            S = 'ShotnoiseHydrographParameters'
            for k, v in (('MeanDaysBetweenEvents', days(gap)), ('MeanEventIncrease', inc), ('FastDecayRate', k1), ('SlowDecayRate', k2), ('FastFlowProp', p),
                         ('RisingLimbTime', days(rise)), ('HydrographDt', i.total_seconds() / 60), ('RandomSeed', seed)):
                put(S, k, v)
        if 'harmonicTide' in st.asked:
            (a, b, i, mean, rng) = st.asked['harmonicTide']
            for k, v in (('MeanSeaLevel', mean), ('TidalRange', rng), ('SeaLevelDt', i.total_seconds() / 60)):
                put('HarmonicTideParameters', k, v)
        return dict(out=o)


@op
def op_paths(s):
    """the files are beside the configuration (or named in full), wherever it is loaded from"""
    with scratch() as d:
        sub = os.path.join(d, s['sub'])
        os.makedirs(sub, exist_ok=True)
        os.makedirs('here')
        names = dict(RiverFlow='flow.csv', WaveConditions='waves.csv', SeaLevel='sea.csv')
        c = model.config(OutputOptions=dict(OutFile=None, TsOutFile=None))
        for k in s['full']:
            c['BoundaryConditions'][k] = "'%s'" % os.path.join(sub, names[k])
        f = model.write(sub, c, name=s['stem'] + '.cnf', **FORC)
        gone = {'config': f}.get(s['missing']) or (os.path.join(sub, names[s['missing']]) if s['missing'] else '')
        if gone:
            os.remove(gone)
        os.chdir('here')
        try:
            # something of the same name where it is loaded from
            for n in names.values():
                open(n, 'w').write('DateTime,Flow\n01/01/1990 00:00,1\n')
            L, kind, msg = attempt(lambda: loadmod.loadModel(f if s['absolute'] else os.path.relpath(f)))
        finally:
            os.chdir(d)
        o = dict(ok=kind == '', kind=kind, msg=msg[:300], series=False, outs=['', ''])
        if L is not None:
            got, dirs = series(L)
            o.update(series=all(got[k]['t'] == FORC[k]['t'] for k in got), outs=[L[25]['OutFile'], L[25]['TsOutFile']])
        return dict(out=o)


@op
def op_series(s):
    with scratch() as d:
        c = model.config(Time=dict(StartTime=model.quoted(s['start']), EndTime=model.quoted(s['end']), MorDtMax=s['hi']))
        if s['flow']['synth']:
            c['BoundaryConditions']['RiverFlow'] = s['flow']['word']
            c['ShotnoiseHydrographParameters'] = dict(s['flow']['pars'])
            if s['flow']['given']:
                c['ShotnoiseHydrographParameters']['HydrographStart'] = model.quoted(s['flow']['first'])
        if s['sea']['synth']:
            c['BoundaryConditions']['SeaLevel'] = s['sea']['word']
            c['HarmonicTideParameters'] = dict(s['sea']['pars'])
        if s['hot']:
            new('full', 'h.nc', s['h'], True)
            for r in s['recs']:
                write('full', 'h.nc', r)
            c['HotStart'] = dict(InitialConditionsNetCDF='h.nc', HotStartTime=model.quoted(s['ask']), ContinueSimulation=s['continue'])
            c['NumericalParameters']['Dx'] = s['h']['dx']
        w = s['waves']
        model.write(d, c, None if s['flow']['synth'] else dict(t=s['flow']['t'], v=s['flow']['cols']['v']), None if s['sea']['synth'] else dict(t=s['sea']['t'], v=s['sea']['cols']['v']),
                    dict(w['cols'], t=w['t'], dir=w['dir']))
        L, kind, msg = attempt(lambda: loadmod.loadModel('m.cnf'))
        o = dict(ok=kind == '', kind=kind, msg=msg[:300], words=words(msg))
        if L is not None:
            o['series'], o['dirs'] = series(L)
            o.update(start=SEC(L[22]['StartTime']), end=SEC(L[22]['EndTime']), norm=float(L[5]))
        return dict(out=o)


@op
def op_straight(s):
    with scratch() as d:
        c = model.config(SpatialInputs=s['S'], InitialConditions=s['I'], PhysicalParameters=s['P'], NumericalParameters=dict(Dx=s['Dx']))
        model.write(d, c, **FORC)
        L, kind, msg = attempt(lambda: loadmod.loadModel('m.cnf'))
        o = dict(ok=kind == '', kind=kind, msg=msg[:300])
        if L is not None:
            o.update(state(L))
        return dict(out=o)


def shapes(d, sh, fault):
    import shapefile
    what, which = (fault.split(':') + [''])[:2] if fault else ('', '')
    for n in ('shore', 'river', 'lagoon', 'cliff', 'outlet'):
        if what == 'missing' and which == n:
            continue
        pts = [sh[n]] if n == 'river' else sh[n]
        kind = 1 if n == 'river' else 3
        if what == 'kind' and which == n:
            kind = 3 if n == 'river' else 1
            pts = pts * 2
        w = shapefile.Writer(os.path.join(d, n), shapeType=kind)
        w.field('id', 'N')
        for _ in range(2 if what == 'two' and which == n else 1):
            if kind == 1:
                for p in pts[:1]:
                    w.point(*p)
                    w.record(1)
            else:
                w.line([[list(p) for p in pts]])
                w.record(1)
        w.close()


@op
def op_shapes(s):
    with scratch() as d:
        c = model.config(SpatialInputs=dict(Shoreline='shore.shp', RiverLocation='river.shp', BarrierBackshore='lagoon.shp', CliffToe='cliff.shp', OutletLocation='outlet.shp'),
                         InitialConditions=s['I'], PhysicalParameters=s['P'], NumericalParameters=dict(Dx=s['Dx']))
        shapes(d, s['SH'], s['fault'])
        n = len(s['dirs'])
        t = list(np.linspace(-3600, 18000, n).round(-2) // 60 * 60)
        forc = dict(FORC, waves=dict(t=t, period=[8.] * n, length=[70.] * n, power=[1e4] * n, dir=s['dirs'], hs=[1.] * n))
        model.write(d, dict(c, Time=dict(c['Time'], MorDtMax=86400.)), **forc)
        L, kind, msg = attempt(lambda: loadmod.loadModel('m.cnf'))
        o = dict(ok=kind == '', kind=kind, msg=msg[:300])
        if L is not None:
            o.update(state(L))
            o['dirs'] = series(L)[1]
        return dict(out=o)


# ------------------------------------------------------------ generated series
@op
def op_tide(s):
    r = synth.harmonicTide(at(s['start']), at(s['end']), sd(s['int']), s['mean'], s['range'])
    return dict(out=dict(t=[SEC(t) for t in r.index], v=flo(r.values)))


@op
def op_shot(s):
    def gen(m, seed):
        kw = dict(RandomSeed=seed) if not s['calc'] else dict(RandomSeed=seed, CalcTimeInt=sd(s['calc']))
        return synth.shotNoise(at(s['start']), at(s['end']), sd(s['int']), pd.Timedelta(days=s['gap']), m, s['k1'], s['p'], s['k2'] if s['has2'] else None, pd.Timedelta(days=s['rise']), **kw)
    r, kind, msg = attempt(lambda: gen(s['m'], s['seed']))
    o = dict(ok=kind == '', kind=kind, msg=msg[:300], t=[], v=[])
    ev = []
    if r is not None:
        random.seed(5)
        a = gen(s['m'], s['seed'])
        random.random()
        b, c = gen(s['m'], s['seed'] + 1), gen(2 * s['m'], s['seed'])
        o.update(t=[SEC(t) for t in r.index], v=flo(r.values), again=bool(a.equals(r)), other=bool(not b.equals(r)) or s['m'] == 0, twice=flo(c.values))
        # the events of this seed
        g, t, last = random.Random(s['seed']), 0., (s['end'] - s['start'] + s['int']) / 86400
        while t < last:
            t += -np.log(g.random()) * s['gap']
            ev.append(dict(at=float(t), size=float(-s['m'] * np.log(1 - g.random()))))
    return dict(out=o, ev=ev)


# ---------------------------------------------------------------- coordinates
@op
def op_coords(s):
    P = np.array(s['points'], dtype=float)
    o, n = A(s['origin']), float(s['norm'])
    both = lambda a, b: [[float(x), float(y)] for x, y in zip(a, b)]
    m = geom.real2mod(P[:, 0], P[:, 1], o, n)
    r = geom.mod2real(P[:, 0], P[:, 1], o, n)
    back = geom.mod2real(m[0], m[1], o, n)
    return dict(out=dict(mod=both(*m), real=both(*r), back=both(*back)))


@op
def op_cross(s):
    return dict(out=dict(y=flo(geom.intersectPolyline(np.array(s['line'], dtype=float), s['x'])) if len(s['line']) > 1 else []))


@op
def op_trim(s):
    P = np.array(s['line'], dtype=float)
    x, y = P[:, 0].copy(), P[:, 1].copy()
    geom.trimLine(x, y, A(s['t']), A(s['a']), A(s['b']))
    return dict(out=dict(line=[[float(a), float(b)] for a, b in zip(x, y)]))
