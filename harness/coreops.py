"""core.main with recorders in the place of, or around, the other modules."""
import contextlib, copy, inspect, os, tempfile
import numpy as np
import pandas as pd
from impl import op, A, ix, flo, one
from hapuamod import riv, coast, mor, synth, core, out, loadmod, visualise

T0 = pd.Timestamp('2000-03-01 06:00')
NAMES = {   # the arguments of the stages, in the order of their definition
    'assembleChannel': 'ShoreX ShoreY ShoreZ OutletEndX OutletEndWidth OutletEndElev Closed RiverElev RivDep RivVel LagoonWL LagoonVel '
                       'OutletDep OutletVel OutletEndDep OutletEndVel Dx PhysicalPars',
    'solveFullPreissmann': 'z B LagArea LagLen Closed h V dx dt Q_Ts DsWl_Ts NumericalPars PhysicalPars',
    'solveSteady': 'ChanDx ChanElev ChanWidth Roughness Qin DsWL NumericalPars',
    'storeHydraulics': 'ChanDep ChanVel OnlineLagoon OutletChanIx ChanFlag LagoonElev Closed',
    'storeBedload': 'Bedload NTransects OnlineLagoon OutletChanIx ChanFlag Closed',
    'calcBedload': 'z B h V dx PhysicalPars Psi',
    'longShoreTransport': 'ShoreY Dx WavePower WavePeriod Wlen_h EDir_h PhysicalPars',
    'runup': 'WavePeriod Hs_offshore BeachSlope',
    'overtopping': 'Runup SeaLevel ShoreY ShoreZ PhysicalPars',
    'updateMorphology': 'ShoreX ShoreY ShoreZ OutletEndX OutletEndWidth OutletEndElev RiverElev OnlineLagoon OutletChanIx LagoonWL OutletDep '
                        'ChanWidth ChanDep ChanDx ChanFlag Closed LST Bedload CST_tot OverwashProp MorDt PhysicalPars TimePars NumericalPars',
    'newOutFile': 'FileName ModelName StartTime ShoreX Dx RiverElev Origin ShoreNormDir PhysicalPars Overwrite',
    'writeCurrent': 'FileName CurrentTime SeaLevel RivFlow Hs_offshore EDir_h ShoreY ShoreZ LagoonWL LagoonVel LagoonBedload OutletDep OutletVel '
                    'OutletBedload LST CST OverwashProp RiverElev RiverDep RiverVel RiverBedload OutletEndX OutletEndElev OutletEndWidth '
                    'OutletEndDep OutletEndVel OutletEndBedload Closed',
    'newTsOutFile': 'FileName ModelName StartTime Overwrite',
    'writeTsOut': 'FileName CurrentTime SeaLevel RivFlow Hs_offshore EDir_h MeanLagoonWl LagOutflow SedInflow OutletEndX Closed MorDt',
}
NAMES = {k: v.split() for k, v in NAMES.items()}
MODS = dict(riv=['assembleChannel', 'solveFullPreissmann', 'solveSteady', 'storeHydraulics', 'storeBedload', 'calcBedload'],
            coast=['longShoreTransport', 'runup', 'overtopping'], mor=['updateMorphology'],
            out=['newOutFile', 'writeCurrent', 'newTsOutFile', 'writeTsOut'])
SHORT = dict(ShoreX='X', ShoreY='Y', ShoreZ='Z', OutletEndX='e', OutletEndWidth='ew', OutletEndElev='ee', Closed='closed', RiverElev='rz',
             RivDep='rd', RivVel='rv', LagoonWL='lwl', LagoonVel='lvl', OutletDep='od', OutletVel='ov', OutletEndDep='oed', OutletEndVel='oev',
             Dx='dx', z='z', B='b', LagArea='la', LagLen='ll', h='h', V='v', dt='dt', Q_Ts='q', DsWl_Ts='ds', ChanDx='dx', ChanElev='z',
             ChanWidth='b', Roughness='n', Qin='q', DsWL='ds', ChanDep='h', ChanVel='v', OnlineLagoon='on', OutletChanIx='oix', ChanFlag='fl',
             LagoonElev='z3', Bedload='qs', NTransects='n', Psi='psi', WavePower='power', WavePeriod='period', Wlen_h='length', EDir_h='dir',
             Hs_offshore='hs', BeachSlope='slope', Runup='runup', SeaLevel='sea', LST='lst', CST_tot='cst', OverwashProp='ow', MorDt='dt',
             FileName='file', CurrentTime='t', RivFlow='flow', LagoonBedload='lbed', OutletBedload='obed', CST='cst', RiverDep='rd', RiverVel='rv',
             RiverBedload='rbed', OutletEndBedload='oebed', MeanLagoonWl='wl', LagOutflow='outflow', SedInflow='sedin', ModelName='name',
             StartTime='start', Origin='origin', ShoreNormDir='norm', Overwrite='overwrite')
SCALARS = {'dx0', 'ew', 'ee', 'n', 'psi', 'power', 'period', 'length', 'dir', 'hs', 'slope', 'runup', 'sea', 'flow', 'oebed', 'wl', 'outflow', 'sedin'}


def bound(f, name, a, k):
    """the arguments by the names they had when this was written (in the order of the definition otherwise)"""
    b = inspect.signature(f).bind(*a, **k)
    b.apply_defaults()
    want = NAMES[name]
    if set(want) <= set(b.arguments):
        return {n: b.arguments[n] for n in want}
    return dict(zip(want, b.arguments.values()))


def plain(fn, name, v):
    s = SHORT.get(name, name)
    if isinstance(v, (pd.Timestamp,)) or hasattr(v, 'year'):
        return (pd.Timestamp(v) - T0).total_seconds()
    if isinstance(v, pd.Timedelta):
        return v.total_seconds()
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, str) or v is None:
        return str(v)
    if s in ('on', 'oix'):
        return ix(v)
    if s == 'n' and fn == 'storeBedload':
        return int(v)
    if s in SCALARS or (s == 'dx' and fn in ('assembleChannel', 'longShoreTransport', 'newOutFile')) or (fn == 'solveSteady' and s in ('q', 'ds')):
        return one(v)
    return flo(v)


class Recorder:
    """stands in for, or around, the stages"""
    def __init__(self, script=None):
        self.log, self.bad, self.script = [], set(), script
        self.dicts = {}
        self.depth = 0

    def wrap(self, mod, name):
        real = getattr(mod, name)

        def f(*a, **k):
            args = bound(real, name, a, k)
            for n, v in args.items():
                if isinstance(v, dict):
                    if n in self.dicts and not same_dict(self.dicts[n], v):
                        self.bad.add('%s of %s' % (n, name))
            rec = dict(fn=name, a={SHORT.get(n, n): plain(name, n, v) for n, v in args.items() if not isinstance(v, dict)}, raised=False, deep=self.depth)
            self.log.append(rec)
            self.depth += 1
            try:
                r = self.script(name, args) if self.script else real(*a, **k)
            except Exception:
                rec['raised'] = True
                rec['r'] = self.result(name, args, None)
                raise
            finally:
                self.depth -= 1
            rec['r'] = self.result(name, args, r)
            if isinstance(rec['r'], dict) and name == 'updateMorphology':
                rec['x'] = dict(breach=bool(r[1]))
            return r
        return f

    def result(self, name, args, r):
        p = lambda n: plain(name, n, args[n])
        if name == 'solveFullPreissmann':
            return dict(h=p('h'), v=p('V'))
        if name == 'updateMorphology':
            g = {SHORT[n]: p(n) for n in ('ShoreY', 'ShoreZ', 'OutletEndX', 'OutletEndWidth', 'OutletEndElev', 'RiverElev')}
            if r is not None:
                g.update(dt=r[0].total_seconds(), breach=bool(r[1]))
            return g
        if r is None:
            return None
        if name == 'assembleChannel':
            d = dict(zip(('dx', 'z', 'b', 'la', 'll', 'h', 'v'), (flo(v) for v in r[:7])))
            d.update(on=ix(r[7]), oix=ix(r[8]), fl=flo(r[9]), closed=bool(r[10]))
            return d
        if name == 'solveSteady':
            return dict(h=flo(r[0]), v=flo(r[1]))
        if name == 'storeHydraulics':
            return dict(zip(('lwl', 'lvl', 'od', 'ov', 'oed', 'oev'), (flo(v) for v in r)))
        if name == 'storeBedload':
            return dict(lag=flo(r[0]), out=flo(r[1]), end=one(r[2]))
        if name == 'overtopping':
            return dict(cst=flo(r[0]), ow=flo(np.asarray(r[1], dtype=float)))
        if name == 'runup':
            return one(r)
        return flo(r)


def same_dict(a, b):
    return set(a.keys()) == set(b.keys()) and all(a[k] == b[k] for k in a.keys())


@contextlib.contextmanager
def patched(rec, plot=True, only=None):
    saved = []
    mods = dict(riv=riv, coast=coast, mor=mor, out=out)
    for m, names in MODS.items():
        for n in names:
            if only and n not in only:
                continue
            saved.append((mods[m], n, getattr(mods[m], n)))
    wrapped = [(m, n, rec.wrap(m, n)) for m, n, _ in saved]
    for m, n, w in wrapped:
        setattr(m, n, w)
    if plot:      # pictures are not drawn, only counted
        for n in ('longSection', 'bdyCndFig', 'modelView', 'updateLongSection', 'updateBdyCndFig', 'updateModelView'):
            saved.append((visualise, n, getattr(visualise, n)))
            setattr(visualise, n, (lambda *a, **k: rec.log.append(dict(fn='plot', a={}, r=None))) if n == 'updateModelView' else (lambda *a, **k: None))
        saved.append((core.plt, 'ion', core.plt.ion))
        core.plt.ion = lambda *a, **k: None
    try:
        yield
    finally:
        for m, n, v in saved:
            setattr(m, n, v)


KEY = dict(assembleChannel='asm', solveFullPreissmann='uns', solveSteady='std', storeHydraulics='sto', storeBedload='stb', calcBedload='bed',
           longShoreTransport='lst', runup='run', overtopping='ot', updateMorphology='mor', writeCurrent='wr', writeTsOut='ts', plot='plots')
ONCE = ('asm', 'uns', 'sto', 'bed', 'lst', 'run', 'ot', 'mor')
MANY = ('std', 'stb', 'wr', 'ts', 'plots')


def steps_of(log):
    """the calls belonging to the start and to every step (not those the stages make of each other)"""
    groups, ended = [], True
    for c in log:
        k = KEY.get(c['fn'])
        if c.get('deep') or not k:
            continue
        if k in ONCE:
            if ended:
                groups.append({x: [] for x in MANY + ONCE})
                ended = False
        elif not groups:
            continue
        if k == 'mor' or (len(groups) == 1 and k in ('wr', 'ts')):     # what ends a step, the start; then come its records
            ended = True
        groups[-1][k].append(dict(a=c['a'], r=c['r'], raised=c['raised']) if k != 'plots' else 1)
    if not groups:
        groups = [{x: [] for x in MANY + ONCE}]
    # what is written and plotted before the first assembly, in case
    start = groups[0]
    start = dict(asm=start['asm'][0], std=start['std'], sto=start['sto'], wr=[c['a'] for c in start['wr']], ts=[c['a'] for c in start['ts']])
    steps, cutshort = [], False
    for g in groups[1:]:
        if any(not g[k] for k in ONCE) or g['mor'][-1]['raised']:
            cutshort = True
            break
        s = {k: g[k][-1] for k in ONCE}
        s.update(std=g['std'], stb=g['stb'], wr=[c['a'] for c in g['wr']], ts=[c['a'] for c in g['ts']], plots=len(g['plots']))
        steps.append(s)
    return start, steps, cutshort


# ---------------------------------------------------------------- scripted
class Script:
    """stages that answer with numbers that occur nowhere else"""
    def __init__(self, s):
        self.s, self.k, self.c = s, -1, 1000.
        self.n = s['n']

    def tok(self, *shape):
        n = int(np.prod(shape)) if shape else 1
        v = self.c + np.arange(n) * .5
        self.c += n * .5 + 1
        return v.reshape(shape) if shape else v[0]

    def step(self):
        st = self.s['steps']
        return st[min(max(self.k, 0), len(st) - 1)]

    def __call__(self, name, a):
        n = self.n
        if name == 'assembleChannel':
            self.k += 1
            sc = self.s['steps'][min(self.k - 1, len(self.s['steps']) - 1)] if self.k else {}
            self.cur = sc
            cl = bool(a['Closed']) or bool(sc.get('close'))
            nr, nl = self.s['nriv'], 1 + self.k % 2
            on = np.arange(n // 2, n // 2 + nl)
            oix = np.arange(n // 2 + nl - 1, min(n // 2 + nl + 1, n - 1)) if not cl else np.array([], dtype=int)
            fl = np.array([0.] * nr + [1.] * nl + ([] if cl else [2.] * oix.size + [3., 4.]))
            m = fl.size
            return (self.tok(m - 1), self.tok(m), self.tok(m), self.tok(m), self.tok(m), self.tok(m), self.tok(m), on, oix, fl, cl)
        if name == 'solveFullPreissmann':
            if self.cur.get('fail'):
                raise RuntimeError('no solution')
            a['h'][:] = self.tok(a['h'].size)
            a['V'][:] = self.tok(a['h'].size)
            return None
        if name == 'solveSteady':
            return self.tok(a['ChanElev'].size), self.tok(a['ChanElev'].size)
        if name == 'storeHydraulics':
            return tuple(self.tok(n) for _ in range(4)) + (self.tok(2), self.tok(2))
        if name == 'storeBedload':
            return self.tok(n), self.tok(n), self.tok()
        if name == 'calcBedload':
            return self.tok(a['z'].size - 1)
        if name == 'longShoreTransport':
            return self.tok(n - 1)
        if name == 'runup':
            return self.tok()
        if name == 'overtopping':
            return self.tok(n), self.tok(n)
        if name == 'updateMorphology':
            if self.cur.get('crash'):
                raise RuntimeError('scripted crash')
            for k, sh in (('ShoreY', (n, 5)), ('ShoreZ', (n, 4)), ('OutletEndX', (2,)), ('RiverElev', (self.s['nriv'],))):
                a[k][...] = self.tok(*sh)
            a['OutletEndWidth'][...] = self.tok()
            a['OutletEndElev'][...] = self.tok()
            return pd.Timedelta(seconds=self.cur['d']), bool(self.cur.get('breach'))
        return None


def series(s):
    return pd.Series(A(s['v']), index=pd.DatetimeIndex([T0 + pd.Timedelta(seconds=t) for t in s['t']]))


def at(sec):
    return T0 + pd.Timedelta(seconds=sec)


def sd(sec):
    return pd.Timedelta(seconds=sec)


def loaded(s, tok):
    """what the model is loaded with"""
    n, nr, c = s['n'], s['nriv'], s['cfg']
    X = (np.arange(n) - n // 2) * float(c['dx'])
    hot = s['hot']
    hyd = [tok(nr), tok(nr)] + [tok(n) for _ in range(4)] + [tok(2), tok(2)] if hot else [np.zeros(nr), np.zeros(nr)] + [np.zeros(n) for _ in range(4)] + [np.zeros(2), np.zeros(2)]
    w = c['waves']
    waves = pd.DataFrame(dict(WavePeriod=A(w['period']), Wlen_h=A(w['length']), WavePower=A(w['power']), EDir_h=A(w['dir']), Hsig_Offshore=A(w['hs'])),
                         index=pd.DatetimeIndex([at(t) for t in w['t']]))
    phys = dict(RoughnessManning=c['n'], BeachSlope=c['slope'], RiverWidth=30., SpitWidth=10.)
    num = dict(Dx=float(c['dx']), Psi=c['psi'], Theta=.7, Beta=1.)
    tim = dict(StartTime=at(0), EndTime=at(c['end']), HydDt=sd(c['hyd']), MorDtMin=sd(c['lo']), MorDtMax=sd(c['hi']))
    opts = dict(OutFile='o.nc', TsOutFile='t.nc', OutInt=sd(c['out']), TsOutInt=sd(c['ts']), LogInt=sd(c['log']), PlotInt=sd(c['plot']))
    return ('m', series(c['flow']), waves, series(c['sea']), np.array([1., 2.]), .3, X, tok(n, 5), tok(n, 4), tok(nr), tok(2),
            np.asarray(tok()), np.asarray(tok()), *hyd, bool(s['closed']), tim, phys, num, opts)


def initial(L):
    return dict(Y=flo(L[7]), Z=flo(L[8]), rz=flo(L[9]), e=flo(L[10]), ew=one(L[11]), ee=one(L[12]), rwl=flo(L[13]), rv=flo(L[14]), lwl=flo(L[15]), lvl=flo(L[16]),
                od=flo(L[17]), ov=flo(L[18]), oed=flo(L[19]), oev=flo(L[20]), closed=bool(L[21]))


@op
def op_stub(s):
    sc = Script(s)
    L = loaded(s, sc.tok)
    cfg = dict(s['cfg'], ini=initial(L), x=flo(L[6]))
    rec = Recorder(sc)
    rec.dicts = dict(PhysicalPars=copy.deepcopy(L[23]), NumericalPars=copy.deepcopy(L[24]), TimePars=copy.deepcopy(L[22]))
    save = loadmod.loadModel
    raised = ''
    try:
        loadmod.loadModel = lambda f: L
        with patched(rec):
            core.main('x.cnf', True)
    except Exception as ex:
        if 'scripted crash' not in str(ex):
            raised = '%s %s' % (type(ex).__name__, ex)
    finally:
        loadmod.loadModel = save
    start, steps, cut = steps_of(rec.log)
    return dict(cfg=cfg, out=dict(start=start, steps=steps, cut=cut, bad=sorted(rec.bad), raised=raised))


# -------------------------------------------------------------- the real thing
def geo_of(a):
    m = dict(x=a['X'], e=a['e'], ew=a['ew'], ee=a['ee'], rz=a['rz'])
    m.update({'y%d' % k: a['Y'][k::5] for k in range(5)})
    m.update({'z%d' % k: a['Z'][k::4] for k in range(4)})
    return m


def stage_events(log, cfg, phys, num, tim, every):
    """the stages of a simulation as events of the specifications of the stages"""
    p = dict(phys, Dx=float(num['Dx']))
    ev = dict(TrChannel=[], TrHyd=[], TrMorph=[], TrCoast=[])
    X, last = None, {}
    k = -1
    for c in log:
        fn, a, r = c['fn'], c['a'], c.get('r')
        if fn == 'assembleChannel':
            X, k = a['X'], k + 1
        if 'fl' in a:
            a = dict(a, fl=[int(f) for f in a['fl']])
        interesting = fn == 'updateMorphology' and not c['raised'] and mor_changed(a, r)
        if c['raised'] or r is None or (k % every and not interesting):
            last[fn] = c
            continue
        if fn == 'assembleChannel':
            s = geo_of(a)
            s.update({n: a[n] for n in ('closed', 'rd', 'rv', 'lwl', 'lvl', 'od', 'ov', 'oed', 'oev')})
            ev['TrChannel'].append(dict(op='assemble', s=s, p=p, out=r, mut=[]))
        elif fn == 'storeHydraulics':
            ev['TrChannel'].append(dict(op='store', c={n: a[n] for n in ('h', 'v', 'on', 'oix', 'fl', 'closed')}, z3=a['z3'], out=r, mut=[]))
        elif fn == 'storeBedload':
            ev['TrChannel'].append(dict(op='storebed', c={n: a[n] for n in ('on', 'oix', 'fl', 'closed')}, qs=a['qs'], n=a['n'], out=r, mut=[]))
        elif fn == 'solveFullPreissmann' and len(a['q']) == 1:
            ch = dict(dx=a['dx'], z=a['z'], b=a['b'], la=a['la'], ll=a['ll'], closed=a['closed'])
            ev['TrHyd'].append(dict(op='unsteady', c=ch, n=phys['RoughnessManning'], g=phys['Gravity'], perm=phys['BarrierPermeability'],
                                    theta=num['Theta'], beta=num['Beta'], dt=a['dt'], maxit=num['MaxIt'], tol=num['ErrTol'], vmin=1e-4, kind='run',
                                    slack=1e-5, expect='either', h0=a['h'], v0=a['v'], q=a['q'], ds=a['ds'], out=dict(h=[r['h']], v=[r['v']]), mut=[]))
        elif fn == 'solveSteady':
            ev['TrHyd'].append(dict(op='steady', c=dict(dx=a['dx'], z=a['z'], b=a['b']), n=a['n'], q=a['q'], ds=a['ds'], beta=num['Beta'],
                                    tol=num['ErrTol'], maxit=num['MaxIt'], out=r, mut=[]))
        elif fn == 'calcBedload':
            ev['TrHyd'].append(dict(op='bedload', p=p, psi=a['psi'], b=a['b'], h=a['h'], v=a['v'], out=dict(qs=r), mut=[]))
        elif fn == 'longShoreTransport':
            s = {'y%d' % j: a['Y'][j::5] for j in range(5)}
            ev['TrCoast'].append(dict(op='lst', s=s, p=p, w=dict(power=a['power'], period=a['period'], length=a['length'], dir=a['dir'], hs=0., sea=0.),
                                      out=dict(lst=r), mut=[]))
        elif fn == 'overtopping' and 'runup' in last:
            u = last['runup'] if 'runup' in last else None
            s = {'y%d' % j: a['Y'][j::5] for j in range(5)}
            s.update({'z%d' % j: a['Z'][j::4] for j in range(4)}, x=X)
            ev['TrCoast'].append(dict(op='overtop', s=s, p=p, w=dict(hs=u['a']['hs'], period=u['a']['period'], sea=a['sea']),
                                      out=dict(runup=a['runup'], cst=r['cst'], ow=r['ow']), mut=[]))
        elif fn == 'updateMorphology':
            i = {n: a[n] for n in ('on', 'oix', 'fl', 'b', 'h', 'qs', 'lst', 'cst', 'ow', 'lwl', 'od', 'closed', 'dt')}
            out_ = dict(m=geo_of(dict(r, X=a['X'])), dt=r['dt'], breach=r['breach'])
            ev['TrMorph'].append(dict(op='morph', fam='run', s=dict(geo_of(a), closed=a['closed']), p=p, i=i,
                                      t=dict(lo=tim['MorDtMin'].total_seconds(), hi=tim['MorDtMax'].total_seconds(), maxchg=num['MaxMorChange']),
                                      out=out_, mut=[]))
        last[fn] = c
    return ev


def mor_changed(a, r):
    nan = lambda Y: [v != v for v in Y[1::5]]
    e0, e1 = a['e'], r['e']
    cr = lambda e: [min(e) <= x <= max(e) for x in a['X']]
    return r['breach'] or nan(a['Y']) != nan(r['Y']) or cr(e0) != cr(e1) or e0[0] != e1[0]


@contextlib.contextmanager
def scratch():
    """run in an empty directory of its own, and remove it"""
    with tempfile.TemporaryDirectory(prefix='run', dir=os.getcwd()) as d:
        here = os.getcwd()
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(here)


def simulate(s, rec, name='m.cnf', overwrite=True, plot=True):
    """core.main on the model described by s, in the current directory; returns what it was loaded with"""
    import model
    model.write(os.getcwd(), s['config'], s.get('flow'), s.get('sea'), s.get('waves'), s.get('shapes'), name)
    return go(rec, name, overwrite, plot)


def go(rec, name, overwrite=True, plot=True):
    save = loadmod.loadModel
    got = {}

    def load(f):
        L = save(f)
        got['ini'] = copy.deepcopy(initial(L))
        got['L'] = L
        rec.dicts = dict(PhysicalPars=copy.deepcopy(dict(L[23])), NumericalPars=copy.deepcopy(dict(L[24])), TimePars=copy.deepcopy(L[22]))
        got['par'] = copy.deepcopy((dict(L[23]), dict(L[24]), L[22], L[25], L[6], L[1], L[2], L[3]))
        return L
    raised = ''
    try:
        loadmod.loadModel = load
        with patched(rec, plot):
            core.main(name, overwrite)
    except Exception as ex:
        raised = 'no steady profile' if 'Maximum iterations' in str(ex) else '%s %s' % (type(ex).__name__, ex)
    finally:
        loadmod.loadModel = save
    return got, raised


def secs(index):
    return [(t - T0).total_seconds() for t in index]


def run_cfg(got):
    phys, num, tim, opts, X, fl, wv, sl = got['par']
    o = lambda k: opts[k].total_seconds()
    return dict(end=(tim['EndTime'] - tim['StartTime']).total_seconds(), lo=tim['MorDtMin'].total_seconds(), hi=tim['MorDtMax'].total_seconds(),
                hyd=tim['HydDt'].total_seconds(), out=o('OutInt'), ts=o('TsOutInt'), plot=o('PlotInt'), log=o('LogInt'), dx=float(num['Dx']),
                n=phys['RoughnessManning'], psi=num['Psi'], slope=phys['BeachSlope'], ini=got['ini'], x=flo(X),
                flow=dict(t=secs(fl.index), v=flo(fl.values)), sea=dict(t=secs(sl.index), v=flo(sl.values)),
                waves=dict(t=secs(wv.index), period=flo(wv.WavePeriod.values), length=flo(wv.Wlen_h.values), power=flo(wv.WavePower.values),
                           dir=flo(wv.EDir_h.values), hs=flo(wv.Hsig_Offshore.values)))


@op
def op_run(s):
    rec = Recorder()
    with scratch():
        got, raised = simulate(s, rec)
    if 'par' not in got:
        raise RuntimeError('not loaded: ' + raised)
    start, steps, cut = steps_of(rec.log)
    ev = stage_events(rec.log, None, got['par'][0], got['par'][1], got['par'][2], s['every'])
    return dict(cfg=run_cfg(got), out=dict(start=start, steps=steps, cut=cut, bad=sorted(rec.bad), raised=raised), stages=ev)


# ------------------------------------------------------------ twin simulations
def mark(*vals):
    """a fingerprint of numbers (one kind of zero and of nan)"""
    import hashlib
    m = hashlib.sha1()
    for v in vals:
        x = np.atleast_1d(np.array(np.ma.filled(np.ma.asarray(v, dtype=float), np.nan), dtype=float) + 0.)
        x[np.isnan(x)] = np.nan
        m.update(repr(x.shape).encode() + np.ascontiguousarray(x).tobytes())
    return m.hexdigest()[:16]


class Tracker:
    """what a simulation does: every step and every record"""
    def __init__(self):
        self.steps, self.recs, self.t = [], [], 0.

    def wrap(self, mod, name):
        real = getattr(mod, name)

        def f(*a, **k):
            args = bound(real, name, a, k)
            num = lambda: [v for n, v in sorted(args.items()) if not isinstance(v, (dict, str, pd.Timedelta)) and n not in ('CurrentTime', 'StartTime', 'Overwrite')]
            if name == 'writeCurrent':
                self.recs.append(dict(t=plain(name, 'CurrentTime', args['CurrentTime']), y=mark(*num())))
            if name == 'updateMorphology':
                x = mark(*num())
                r = real(*a, **k)
                self.steps.append(dict(t=self.t, x=x, y=mark(*[args[n] for n in ('ShoreY', 'ShoreZ', 'OutletEndX', 'OutletEndWidth', 'OutletEndElev', 'RiverElev')],
                                                            r[0].total_seconds(), bool(r[1]))))
                self.t += r[0].total_seconds()
                return r
            return real(*a, **k)
        return f


def one_run(name, plots):
    from hapuamod import riv as R
    tr = Tracker()
    noise = [False]
    save = R.linalg.solve_banded if hasattr(R, 'linalg') else None

    def sb(*a, **k):
        try:
            return save(*a, **k)
        except Exception:
            noise[0] = True
            raise
    raised = ''
    import matplotlib.pyplot as plt
    try:
        if save:
            R.linalg.solve_banded = sb
        with patched(tr, plot=not plots, only=('updateMorphology', 'writeCurrent')):
            core.main(name, True)
    except Exception as ex:
        raised = 'no steady profile' if 'Maximum iterations' in str(ex) else '%s %s' % (type(ex).__name__, ex)
    finally:
        if save:
            R.linalg.solve_banded = save
        plt.close('all')
    return dict(steps=tr.steps, recs=tr.recs, raised=raised), noise[0]


def elsewhere(f):
    """f() in a process of its own"""
    import json
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as g:
                try:
                    json.dump(dict(got=f()), g)
                except BaseException as ex:
                    json.dump(dict(died='%s %s' % (type(ex).__name__, ex)), g)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as g:
        x = g.read()
    os.waitpid(pid, 0)
    x = json.loads(x) if x else dict(died='no answer')
    if 'died' in x:
        raise RuntimeError(x['died'])
    return x['got']


@op
def op_twin(s):
    import model
    with scratch() as d:
        if s['what'] == 'after':
            for w, over in (('a', {}), ('b', s['b']['over'])):
                os.makedirs(w)
                c = copy.deepcopy(s['config'])
                for sec, kv in over.items():
                    c[sec].update(kv)
                model.write(os.path.join(d, w), c, s['flow'], s['sea'], s['waves'])

            def alone():
                os.chdir(os.path.join(d, 'a'))
                return one_run('m.cnf', False)

            def second():
                os.chdir(os.path.join(d, 'b'))
                one_run('m.cnf', False)
                return alone()
            (a, na), (b, nb) = elsewhere(alone), elsewhere(second)
            if 'ConfigError' in a['raised']:
                raise RuntimeError(a['raised'])
            return dict(out=dict(a=a, b=b, noise=na or nb))
        out_ = {}
        noisy = False
        for w in ('a', 'b'):
            v = s[w]
            os.makedirs(w)
            c = copy.deepcopy(s['config'])
            for sec, kv in v.get('over', {}).items():
                c[sec].update(kv)
            model.write(os.path.join(d, w), c, v.get('flow', s['flow']), v.get('sea', s['sea']), v.get('waves', s['waves']))
            os.chdir(w)
            out_[w], noise = one_run('m.cnf', s['plots'] and w == 'b')
            noisy |= noise
            os.chdir(d)
    if 'ConfigError' in out_['a']['raised']:
        raise RuntimeError(out_['a']['raised'])
    return dict(out=dict(out_, noise=noisy))
