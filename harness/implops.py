"""The operations: each takes a scenario and runs the real code on it."""
import copy, os, sys
import numpy as np
import pandas as pd
from impl import op, A, ix, flo, one, mutated, geomstate, REPO
from hapuamod import riv, coast, mor, geom, synth, core, out, loadmod


# ---------------------------------------------------------------- channel
def asm_args(s, p):
    X, Y, Z = geomstate(s)
    return dict(ShoreX=X, ShoreY=Y, ShoreZ=Z, OutletEndX=A(s['e']),
                OutletEndWidth=np.asarray(float(s['ew'])), OutletEndElev=np.asarray(float(s['ee'])),
                Closed=bool(s['closed']), RiverElev=A(s['rz']), RivDep=A(s['rd']), RivVel=A(s['rv']),
                LagoonWL=A(s['lwl']), LagoonVel=A(s['lvl']), OutletDep=A(s['od']), OutletVel=A(s['ov']),
                OutletEndDep=A(s['oed']), OutletEndVel=A(s['oev']), Dx=float(p['Dx']), PhysicalPars=dict(p))


def asm_out(r):
    (dx, z, b, la, ll, h, v, on, oix, fl, closed) = r
    return dict(dx=flo(dx), z=flo(z), b=flo(b), la=flo(la), ll=flo(ll), h=flo(h), v=flo(v),
                on=ix(on), oix=ix(oix), fl=ix(fl), closed=bool(closed))


@op
def op_assemble(s):
    a = asm_args(s['s'], s['p'])
    before = copy.deepcopy(a)
    r = riv.assembleChannel(**a)
    return dict(out=asm_out(r), mut=mutated(before, a))


def store_args(c, z3):
    return dict(ChanDep=A(c['h']), ChanVel=A(c['v']), OnlineLagoon=np.array(c['on'], dtype=int),
                OutletChanIx=np.array(c['oix'], dtype=int), ChanFlag=np.array(c['fl'], dtype=float),
                LagoonElev=A(z3), Closed=bool(c['closed']))


def store_out(r):
    return dict(zip(('lwl', 'lvl', 'od', 'ov', 'oed', 'oev'), (flo(v) for v in r)))


@op
def op_store(s):
    a = store_args(s['c'], s['z3'])
    before = copy.deepcopy(a)
    r = riv.storeHydraulics(**a)
    return dict(out=store_out(r), mut=mutated(before, a))


@op
def op_storebed(s):
    c = s['c']
    (lag, outl, end) = riv.storeBedload(A(s['qs']), int(s['n']), np.array(c['on'], dtype=int),
                                        np.array(c['oix'], dtype=int), np.array(c['fl'], dtype=float),
                                        bool(c['closed']))
    return dict(out=dict(lag=flo(lag), out=flo(outl), end=one(end)))


@op
def op_roundtrip(s):
    a = asm_args(s['s'], s['p'])
    r0 = riv.assembleChannel(**a)
    (dx, z, b, la, ll, h, v, on, oix, fl, closed) = r0
    st = riv.storeHydraulics(h, v, on, oix, fl, a['ShoreZ'][:, 3], closed)
    a2 = dict(a)
    a2.update(Closed=closed, RivDep=h[fl == 0], RivVel=v[fl == 0], LagoonWL=st[0], LagoonVel=st[1],
              OutletDep=st[2], OutletVel=st[3], OutletEndDep=st[4], OutletEndVel=st[5])
    r1 = riv.assembleChannel(**a2)
    return dict(out=dict(h0=flo(h), v0=flo(v), closed0=bool(closed), h1=flo(r1[5]), v1=flo(r1[6]),
                         closed1=bool(r1[10])))


# ------------------------------------------------------------- hydraulics
@op
def op_steady(s):
    c = s['c']
    a = dict(ChanDx=A(c['dx']), ChanElev=A(c['z']), ChanWidth=A(c['b']), Roughness=float(s['n']),
             Qin=np.array([float(s['q'])]) if s.get('arr') else float(s['q']),
             DsWL=np.array([float(s['ds'])]) if s.get('arr') else float(s['ds']),
             NumericalPars=dict(Beta=s['beta'], ErrTol=s['tol'], MaxIt=s['maxit']))
    before = copy.deepcopy(a)
    h, v = riv.solveSteady(**a)
    return dict(out=dict(h=flo(h), v=flo(v)), mut=mutated(before, a))


@op
def op_unsteady(s):
    """Run the first k steps for each k, so that every step can be seen."""
    c = s['c']
    K = len(s['q'])
    hs, vs, mut = [], [], []
    for k in range(1, K + 1):
        a = dict(z=A(c['z']), B=A(c['b']), LagArea=A(c['la']), LagLen=A(c['ll']), Closed=bool(c['closed']),
                 dx=A(c['dx']), Q_Ts=A(s['q'][:k]), DsWl_Ts=A(s['ds'][:k]), dt=pd.Timedelta(seconds=s['dt']),
                 NumericalPars=dict(Theta=s['theta'], Beta=s['beta'], ErrTol=s['tol'], MaxIt=s['maxit'], WarnTol=s.get('wtol', 0.1)),
                 PhysicalPars=dict(Gravity=s['g'], RoughnessManning=s['n'], BarrierPermeability=s['perm']))
        before = copy.deepcopy(a)
        h, v = A(s['h0']), A(s['v0'])
        np.random.seed(0)
        riv.solveFullPreissmann(h=h, V=v, **a)
        hs.append(flo(h))
        vs.append(flo(v))
        mut += mutated(before, a)
    return dict(out=dict(h=hs, v=vs), mut=sorted(set(mut)))


@op
def op_bedload(s):
    a = dict(z=np.zeros(len(s['b'])), B=A(s['b']), h=A(s['h']), V=A(s['v']), dx=np.full(len(s['b']) - 1, 10.),
             PhysicalPars=dict(s['p']), Psi=float(s['psi']))
    before = copy.deepcopy(a)
    qs = riv.calcBedload(**a)
    return dict(out=dict(qs=flo(qs)), mut=mutated(before, a))


# ------------------------------------------------------------- morphology
def geo_out(X, Y, Z, E, ew, ee, rz):
    m = dict(x=flo(X), e=flo(E), ew=one(ew), ee=one(ee), rz=flo(rz))
    m.update({'y%d' % k: flo(Y[:, k]) for k in range(5)})
    m.update({'z%d' % k: flo(Z[:, k]) for k in range(4)})
    return m


def td(sec):
    return pd.Timedelta(int(round(sec * 1e9)), 'ns')


@op
def op_morph(s):
    m, i, t = s['s'], s['i'], s['t']
    X, Y, Z = geomstate(m)
    E, ew, ee, rz = A(m['e']), np.asarray(float(m['ew'])), np.asarray(float(m['ee'])), A(m['rz'])
    a = dict(OnlineLagoon=np.array(i['on'], dtype=int), OutletChanIx=np.array(i['oix'], dtype=int),
             LagoonWL=A(i['lwl']), OutletDep=A(i['od']), ChanWidth=A(i['b']), ChanDep=A(i['h']),
             ChanDx=np.full(len(i['b']) - 1, float(s['p']['Dx'])), ChanFlag=np.array(i['fl'], dtype=float),
             Closed=bool(i['closed']), LST=A(i['lst']), Bedload=A(i['qs']), CST_tot=A(i['cst']),
             OverwashProp=A(i['ow']).astype(bool) if s.get('bool', True) else A(i['ow']), MorDt=td(i['dt']), PhysicalPars=dict(s['p']),
             TimePars=dict(MorDtMin=td(t['lo']), MorDtMax=td(t['hi'])),
             NumericalPars=dict(Dx=float(s['p']['Dx']), MaxMorChange=float(t['maxchg'])))
    before = copy.deepcopy(dict(a, ShoreX=X))
    dt, breach = mor.updateMorphology(ShoreX=X, ShoreY=Y, ShoreZ=Z, OutletEndX=E, OutletEndWidth=ew, OutletEndElev=ee,
                                      RiverElev=rz, **a)
    return dict(out=dict(m=geo_out(X, Y, Z, E, ew, ee, rz), dt=dt.total_seconds(), breach=bool(breach)),
                mut=mutated(before, dict(a, ShoreX=X)))


def morph_call(m, i, t, p):
    X, Y, Z = geomstate(m)
    E, ew, ee, rz = A(m['e']), np.asarray(float(m['ew'])), np.asarray(float(m['ee'])), A(m['rz'])
    dt, breach = mor.updateMorphology(
        ShoreX=X, ShoreY=Y, ShoreZ=Z, OutletEndX=E, OutletEndWidth=ew, OutletEndElev=ee, RiverElev=rz,
        OnlineLagoon=np.array(i['on'], dtype=int), OutletChanIx=np.array(i['oix'], dtype=int), LagoonWL=A(i['lwl']),
        OutletDep=A(i['od']), ChanWidth=A(i['b']), ChanDep=A(i['h']), ChanDx=np.full(len(i['b']) - 1, float(p['Dx'])),
        ChanFlag=np.array(i['fl'], dtype=float), Closed=bool(i['closed']), LST=A(i['lst']), Bedload=A(i['qs']),
        CST_tot=A(i['cst']), OverwashProp=A(i['ow']).astype(bool), MorDt=td(i['dt']), PhysicalPars=dict(p),
        TimePars=dict(MorDtMin=td(t['lo']), MorDtMax=td(t['hi'])), NumericalPars=dict(Dx=float(p['Dx']), MaxMorChange=float(t['maxchg'])))
    return geo_out(X, Y, Z, E, ew, ee, rz), dt.total_seconds(), bool(breach)


def shape(m):
    """what changes when something happens to the landforms"""
    e = m['e']
    return ([v != v for v in m['y1']], e[0], [min(e) <= x <= max(e) for x in m['x']], [a <= b for a, b in zip(m['y3'], m['y4'])])


@op
def op_history(s):
    """Channel assembly and morphological step in turn, under a forcing that lasts."""
    import morph
    rng = np.random.default_rng(s['seed'])
    p, t, m = s['p'], s['t'], dict(s['s'])
    closed, dt = bool(m['closed']), s['dt']
    states, brs, cls, dts, steps = [], [], [], [], []
    pick = np.random.default_rng(s['seed'] + 1)
    stop = ''
    for k in range(s['k']):
        n = len(m['x'])
        if any(b > min(a, c if c == c else a) - 1 or z > a - 1 for a, c, b, z in zip(m['z0'], m['z2'], m['z3'], m['z1'])):
            break     # the forcing has filled the lagoon or the channel to the top: not a state of a river mouth
        full = dict(m, closed=closed, rd=[1.] * len(m['rz']), rv=[.5] * len(m['rz']), lwl=[z + 1. for z in m['z3']], lvl=[.1] * n,
                    od=[1.] * n, ov=[.5] * n, oed=[1., 1.], oev=[.5, .5])
        try:
            r = riv.assembleChannel(**asm_args(full, p))
        except Exception as ex:
            stop = 'assemble: %s %s' % (type(ex).__name__, ex)
            break
        c = asm_out(r)
        closed = c['closed']
        i = morph.forcing(rng, m, p, c, s['regime'], dt)
        m0, dt0 = m, dt
        try:
            m, dt, b = morph_call(m, i, t, p)
        except Exception as ex:
            stop = 'step: %s %s' % (type(ex).__name__, ex)
            break
        if len(steps) < s.get('steps', 0) and (b or shape(m) != shape(m0) or pick.random() < .04):
            steps.append(dict(s=dict(m0, closed=i['closed']), i=dict(i, dt=dt0), out=dict(m=m, dt=dt, breach=b)))
        if b:
            closed = False
        states.append(m)
        brs.append(b)
        cls.append(closed)
        dts.append(dt)
    return dict(out=dict(m=states, breach=brs, closed=cls, dt=dts, stop=stop, steps=steps))


# ----------------------------------------------------------------- mirror
def flip_state(s):
    m = dict(s)
    for k in ('y0', 'y1', 'y2', 'y3', 'y4', 'z0', 'z1', 'z2', 'z3', 'lwl', 'lvl', 'od', 'ov'):
        if k in m:
            m[k] = m[k][::-1]
    m['x'] = [-v if v else 0. for v in m['x'][::-1]]
    m['e'] = [-v if v else 0. for v in m['e']]
    return m


def flip_inputs(i, n):
    j = dict(i)
    j['on'] = [n - 1 - k for k in i['on']]
    j['oix'] = [n - 1 - k for k in i['oix']]
    for k in ('lwl', 'od', 'cst', 'ow'):
        j[k] = i[k][::-1]
    j['lst'] = [-v for v in i['lst'][::-1]]
    return j


def twin(f, *args):
    """f on both; that only one of them fails is a difference too"""
    r = []
    for a in args:
        try:
            r.append(dict(f(*a), ok=True))
        except Exception as ex:
            r.append(dict(ok=False, why='%s %s' % (type(ex).__name__, ex)))
    return dict(out=dict(zip('ab', r)))


@op
def op_mirror(s):
    n = len(s['s']['x'])
    w, p = s['what'], s['p']
    both = (s['s'], flip_state(s['s']))
    if w == 'assemble':
        return twin(lambda x: asm_out(riv.assembleChannel(**asm_args(x, p))), *((x,) for x in both))
    if w == 'morph':
        def run(x, i):
            m, dt, b = morph_call(x, i, s['t'], p)
            return dict(m=m, dt=dt, breach=b)
        return twin(run, (both[0], s['i']), (both[1], flip_inputs(s['i'], n)))

    def run(x, d):
        X, Y, Z = geomstate(x)
        v = lst_call(Y, s['w'], d, p) + ot_call(Y, Z, s['w'], p)
        return dict(lst=flo(v[0]), runup=float(v[1]), cst=flo(v[2]), ow=flo(v[3]))
    return twin(run, (both[0], s['w']['dir']), (both[1], -s['w']['dir']))


# ------------------------------------------------------------------ coast
def lst_call(Y, w, d, p):
    r = coast.longShoreTransport(Y, float(p['Dx']), float(w['power']), float(w['period']), float(w['length']), float(d), dict(p))
    return (r, coast.runup(float(w['period']), float(w['hs']), float(p['BeachSlope'])))


def ot_call(Y, Z, w, p):
    ru = coast.runup(float(w['period']), float(w['hs']), float(p['BeachSlope']))
    return coast.overtopping(ru, float(w['sea']), Y, Z, dict(p))


@op
def op_lst(s):
    X, Y, Z = geomstate(s['s'])
    w, p = s['w'], dict(s['p'])
    before = copy.deepcopy((Y, p))
    r = coast.longShoreTransport(Y, float(p['Dx']), float(w['power']), float(w['period']), float(w['length']), float(w['dir']), p)
    return dict(out=dict(lst=flo(r)), mut=mutated(dict(Y=before[0], p=before[1]), dict(Y=Y, p=p)))


@op
def op_overtop(s):
    X, Y, Z = geomstate(s['s'])
    w, p = s['w'], dict(s['p'])
    a = dict(Y=Y, Z=Z, p=p)
    before = copy.deepcopy(a)
    ru = coast.runup(float(w['period']), float(w['hs']), float(p['BeachSlope']))
    c, o = coast.overtopping(ru, float(w['sea']), Y, Z, p)
    return dict(out=dict(runup=float(ru), cst=flo(c), ow=flo(np.asarray(o, dtype=float))), mut=mutated(before, a))
