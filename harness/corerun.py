"""Scenarios for the main loop, the output files and whole simulations."""
import numpy as np


def q(tier, a, b):
    return a if tier == 'quick' else b


def times(rng, end, hi, gap):
    """times of a boundary condition series, covering the run"""
    t, out = float(-rng.choice([0, 0, 1, 2]) * gap * rng.uniform(.3, 1)), []
    t = float(round(t))
    while True:
        out.append(t)
        if t >= end + (hi if rng.random() < .5 else 0):
            return out
        t += float(max(1, round(gap * rng.uniform(.4, 1.6))))


def bdy(rng, end, hi, gap, a, b):
    t = times(rng, end, hi, gap)
    return dict(t=t, v=[float(v) for v in rng.uniform(a, b, len(t))])


def settings(rng, end, lo, hi, hyd, out, ts, plot=0., log=3600.):
    gap = max(2., end / float(rng.integers(1, 9)))
    w = times(rng, end, hi, gap)
    return dict(end=float(end), lo=float(lo), hi=float(hi), hyd=float(hyd), out=float(out), ts=float(ts), plot=float(plot), log=float(log),
                dx=float(rng.choice([5., 10., 20.])), n=float(rng.uniform(.02, .05)), psi=float(rng.uniform(.3, .5)), slope=float(rng.uniform(.05, .2)),
                flow=bdy(rng, end, hi, gap, 5, 300), sea=bdy(rng, end, hi, gap * float(rng.uniform(.5, 2)), -1, 2),
                waves=dict(t=w, **{k: [float(v) for v in rng.uniform(a, b, len(w))] for k, (a, b) in
                                   dict(period=(4, 12), length=(30, 100), power=(0, 3e4), dir=(-1, 1), hs=(.3, 4)).items()}))


def stub(rng, cfg, steps, closed=None, hot=None):
    return dict(op='stub', n=int(rng.integers(4, 7)), nriv=int(rng.integers(1, 4)), cfg=cfg, steps=steps,
                closed=bool(rng.random() < .3) if closed is None else closed, hot=bool(rng.random() < .3) if hot is None else hot)


def scripted(rng, n, crash=0.):
    out = []
    for _ in range(n):
        lo = float(rng.choice([15., 30., 60., 7.5, 100.]))
        hi = lo * float(rng.choice([1, 2, 4, 16]))
        end = float(round(lo * rng.uniform(.3, 30))) if rng.random() < .8 else lo * float(rng.integers(1, 12))
        hyd = float(rng.choice([lo, lo / 3, lo / 2, lo / 5, lo * .7, lo * 2]))
        hyd = max(.5, round(hyd * 2) / 2)
        ivs = [0., lo / 2, lo, lo * 1.5, hi, hi * 2, hi * 1.3, end / 2, end, end * 3]
        cfg = settings(rng, end, lo, hi, hyd, round(float(rng.choice(ivs))), round(float(rng.choice(ivs))), plot=round(float(rng.choice([0, 0, lo, hi]))))
        if rng.random() < .5:
            d = np.minimum(hi, lo * 2. ** rng.integers(0, 5, 60))
        else:
            d = rng.choice([lo, hi], 60)
        pf, pc, pb = rng.choice([0, .2]), rng.choice([0, .1]), rng.choice([0, .2])
        st = [dict(d=float(v), fail=bool(rng.random() < pf), close=bool(rng.random() < pc), breach=bool(rng.random() < pb)) for v in d]
        if rng.random() < crash:
            st[int(rng.integers(0, 6))]['crash'] = True
        out.append(stub(rng, cfg, st))
    return out


def em_clock(rng, em, tier):
    out = []
    for e in em.get('Clock', []):
        c, u = e['cfg'], 60.
        cfg = settings(rng, c['end'] * u, c['lo'] * u, c['lo'] * c['ratio'] * u, c['hyd'] * u, c['out'] * u, c['ts'] * u)
        steps = [dict(d=x['d'] * u, close=x['close'], breach=x['breach'], fail=x['fail']) for x in e['steps']]
        out.append(stub(rng, cfg, steps, closed=False))
    rng.shuffle(out)
    return out[:q(tier, 500, 4000)]


def wavelength(T, depth=10.):
    """of waves of a period in water of a depth (linear theory)"""
    k = 4 * np.pi ** 2 / (9.81 * T ** 2)
    for _ in range(200):
        k = .5 * k + .5 * 4 * np.pi ** 2 / (9.81 * T ** 2 * np.tanh(k * depth))
    return float(2 * np.pi / k)


def straight(rng, minutes, **over):
    """a river mouth on a straight shore under forcing strong enough for something to happen in so many minutes"""
    import model
    Dx = float(rng.choice([5., 10., 10., 20.]))
    lo = float(rng.choice([15., 30., 60.]))
    K = float(10 ** rng.uniform(-2, .3))
    ow = float(rng.uniform(6, 25))
    num = dict(Dx=Dx, Beta=float(rng.choice([0., 1., 1.05])), Theta=float(rng.choice([.6, .7, 1.])), Psi=float(rng.choice([.3, .4, .5])), ErrTol=1e-4, MaxIt=100,
               MaxMorChange=float(rng.choice([.05, .1, .3])))
    phys = dict(Kcoef=K, RiverWidth=float(rng.choice([40., 60., 80.])), UpstreamLength=float(rng.choice([60., 100.])), MinOutletWidth=float(rng.choice([1., 3.])),
                SpitWidth=float(rng.choice([6., 10.])), OutletBankEroFac=float(rng.choice([0., .5, 1.])), WidthDepthRatio=float(rng.choice([10., 30.])),
                BarrierPermeability=float(rng.choice([0., .001])), GrainSize=float(rng.choice([.004, .018])), BeachSlope=float(rng.choice([.08, .13])),
                OT_coef=float(rng.choice([1.5e-4, 5e-3])), ShorelineErosionRate=float(rng.choice([0., 1.])))
    c = model.config(
        SpatialInputs=dict(ShorelineLengthLeft=Dx * int(rng.integers(5, 14)), ShorelineLengthRight=Dx * int(rng.integers(5, 14)), BeachWidth=float(rng.uniform(30, 50))),
        InitialConditions=dict(OutletWidth=ow, OutletBed=float(rng.uniform(-2, -.5)), LagoonBed=float(rng.uniform(-1.5, -.5)), BarrierElev=float(rng.uniform(2.2, 4.))),
        Time=dict(EndTime=model.quoted(minutes * 60.), HydDt=float(lo if rng.random() < .7 else lo / 3), MorDtMin=lo, MorDtMax=lo * float(rng.choice([1, 4, 16]))),
        PhysicalParameters=phys, NumericalParameters=num,
        OutputOptions=dict(OutInt=float(rng.choice([0., lo * 4, 900.])), TsOutInt=float(rng.choice([0., lo * 2, 300.]))))
    for k, v in over.items():
        c[k].update(v)
    end = minutes * 60.
    gap = float(rng.choice([10, 30, 60])) * 60

    def ser(a, b, one=.3):
        t = [60. * round(x / 60.) for x in np.arange(-gap, end + 2 * gap, gap)]
        return t, [float(v) for v in (rng.uniform(a, b, len(t)) if rng.random() > one else np.full(len(t), rng.uniform(a, b)))]
    side = float(rng.choice([-1, 1]))
    t, q_ = ser(*[(3, 20), (10, 60), (40, 250)][int(rng.integers(0, 3))])
    ts, sl = ser(-1.2, 1.2)
    tw, wd = ser(*sorted((20 * side, 50 * side)))
    z = lambda a, b: [float(v) for v in rng.uniform(a, b, len(tw))]
    pd = z(5, 12)
    hs = float(rng.uniform(.5, 4))
    return dict(config=c, flow=dict(t=t, v=q_), sea=dict(t=ts, v=sl),
                waves=dict(t=tw, period=pd, length=[wavelength(T) for T in pd], power=z(2e3, 3e4), dir=wd, hs=z(.8 * hs, hs)))


def real(rng, n, minutes, every):
    out = []
    for _ in range(n):
        s = straight(rng, int(rng.integers(minutes // 2, minutes)))
        out.append(dict(op='run', every=every, limit=120, **s))
    return out


def split_run(ev):
    parts = dict(TrCore=[])
    for e in ev:
        for m, l in e.pop('stages', {}).items():
            parts.setdefault(m, []).extend(l)
        parts['TrCore'].append(e)
    return [(m, l) for m, l in parts.items() if l]


def twins(rng, n, minutes):
    import model
    out = []
    for k in range(n):
        m = int(rng.integers(minutes // 2, minutes))
        s = straight(rng, m)
        what = ('options', 'forcing', 'end', 'after', 'options', 'forcing', 'end', 'repeat')[k % 8]
        lo = s['config']['Time']['MorDtMin']
        b, e = {}, {}
        if what == 'options':
            b['over'] = dict(OutputOptions=dict(OutFile='other.nc', TsOutFile='others.nc', OutInt=float(rng.choice([0., lo, 3 * lo, 1e5])), TsOutInt=float(rng.choice([0., 2 * lo, 1e5])),
                                                LogInt=float(rng.choice([0., lo, 1e5])), PlotInt=float(rng.choice([0., 20 * lo]) if k % 8 else 20 * lo)))
        elif what == 'after':       # another one first: the same state and forcing, other parameters
            ph = s['config']['PhysicalParameters']
            alike = ['Kcoef', 'RhoSed', 'RhoSea', 'VoidRatio', 'Gravity', 'GammaRatio', 'WaveDataDepth', 'ClosureDepth', 'BeachSlope', 'GrainSize', 'CritShieldsStress', 'MPM_coef', 'RoughnessManning',
                     'GrainRoughness', 'WidthDepthRatio', 'BackshoreElev', 'OT_coef', 'TargetBarHeight', 'TargetBarWidth', 'OutletSedSpreadDist', 'OutletBankEroFac', 'BarrierPermeability']
            b['over'] = dict(PhysicalParameters={a: ph[a] * float(rng.uniform(.8, .97)) for a in alike if a in ph and rng.random() < .7},
                             NumericalParameters=dict(MaxMorChange=s['config']['NumericalParameters'].get('MaxMorChange', .1) * 1.5))
            if k % 16 == 3:
                b['over']['SpatialInputs'] = dict(BeachWidth=s['config']['SpatialInputs']['BeachWidth'] + 3.)
        elif what == 'end':
            b['over'] = dict(Time=dict(EndTime=model.quoted((m + int(rng.integers(1, 10))) * 60.)))
        elif what == 'forcing':
            kind = str(rng.choice(['flow', 'sea', 'waves']))
            t = s[kind]['t']
            i = int(rng.integers(max(1, len(t) // 2), len(t))) if len(t) > 2 else len(t) - 1
            z = dict(s[kind])
            for key in z:
                if key != 't':
                    z[key] = z[key][:i] + [float(v) for v in rng.permutation(z[key][i:]) * (1.1 if key != 'dir' else .9)]
            b[kind] = z
            e = dict(reach=float(s['config']['Time']['MorDtMax']) + 2 * float(s['config']['Time']['HydDt']), **{'from': float(t[i - 1])})
        out.append(dict(op='twin', what=what, plots=b.get('over', {}).get('OutputOptions', {}).get('PlotInt', 0) > 0, limit=240, a={}, b=b, **e, **s))
    return out


CLOCK = dict(name='Clock', module='MC_Clock', emit=True, timeout=850,
             invariants=['Within', 'Forward', 'HydSound', 'Records', 'Emitted', 'Reached', 'Kept', 'Ends_'],
             nonvacuous=['cut', 'records', 'closed', 'between records', 'breach'],
             cfg=lambda tier, seed: ('SPECIFICATION Spec\nCONSTANTS Ends = %s Los = {1, 2} Ratios = {1, 2} Hyds = {1, 3} Outs = %s Emit = %d\n'
                                     'INVARIANTS Within Forward HydSound Records Emitted Reached\nPROPERTIES Kept Ends_\nCHECK_DEADLOCK FALSE\n'
                                     % (q(tier, '{4}', '{3, 4, 5}'), q(tier, '{0, 1, 3}', '{0, 1, 2, 4}'), q(tier, 23, 97))))
TWIN = dict(name='Twin', module='MC_Twin', invariants=['SameSteps', 'SameRuns', 'AtSteps'], nonvacuous=['other records', 'other end'], timeout=850,
            cfg=lambda tier, seed: 'SPECIFICATION Spec\nCONSTANTS Ends = %s Lo = 1 Hi = %d Outs = %s\nINVARIANTS SameSteps SameRuns AtSteps Reached\nCHECK_DEADLOCK FALSE\n'
            % (q(tier, '{3, 4, 5}', '{4, 5, 6, 7}'), q(tier, 3, 3), q(tier, '{0, 1, 2}', '{0, 1, 2, 3}')))
MC = dict(Clock=CLOCK, Twin=TWIN)
SUITES = dict(
    schedule=dict(gen=lambda r, t, em: em_clock(r, em, t) + scripted(r, q(t, 300, 5000)), module='TrCore'),
    runs=dict(gen=lambda r, t, em: real(r, q(t, 16, 112), q(t, 90, 240), q(t, 9, 9)), module='TrCore', split=split_run, all=True),
    twins=dict(gen=lambda r, t, em: twins(r, q(t, 48, 320), q(t, 60, 150)), module='TrTwin'),
    dataflow=dict(gen=lambda r, t, em: scripted(r, q(t, 500, 6000), crash=.2), module='TrCore'),
)
PROPS = dict(
    T01=dict(slug='sim-clock', mc=['Clock'], suites=['schedule']),
    T03=dict(slug='output-schedule', mc=['Clock'], suites=['schedule']),
    T05=dict(slug='reproducibility', mc=['Twin'], suites=['twins']),
    T04=dict(slug='step-dataflow', mc=['Clock'], suites=['dataflow', 'runs']),
)
