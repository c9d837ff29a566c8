"""Scenarios for loading a model, for generated series and for coordinates."""
import numpy as np
import model, outdom


def q(tier, a, b):
    return a if tier == 'quick' else b


SYN = dict(ShotnoiseHydrographParameters=dict(MeanDaysBetweenEvents=15., MeanEventIncrease=100., FastDecayRate=.3, SlowDecayRate=.015, FastFlowProp=.9, RisingLimbTime=.2, HydrographDt=30., RandomSeed=7),
           HarmonicTideParameters=dict(MeanSeaLevel=.1, TidalRange=2.1, SeaLevelDt=10.))


def entry(s, k, v):
    if isinstance(v, str):
        return dict(s=s, k=k, form='word', v=0., text=v.strip("'"))
    return dict(s=s, k=k, form='int' if isinstance(v, int) else 'real', v=float(v), text=repr(v))


def base_given(synth):
    c = model.config(**(SYN if synth else {}))
    if synth:
        c['BoundaryConditions'].update(RiverFlow='shotnoise', SeaLevel='Harmonic')
    out = []
    for s, kv in c.items():
        if isinstance(kv, dict):
            out += [entry(s, k, v) for k, v in kv.items()]
        else:
            out.append(entry('', s, kv))
    return out


def faulty(rng, faults, synth):
    """the configuration with these entries changed (form absent: taken away; key '': the whole section)"""
    g = base_given(synth)
    for f in faults:
        g = [x for x in g if not (x['s'] == f['s'] and f['k'] in ('', x['k']))]
        if f['form'] != 'absent':
            v = float(f['v'])
            text = f['text']
            if f['form'] == 'int':
                text = str(int(v))
            elif f['form'] == 'real':
                text = repr(v)
            g.append(dict(s=f['s'], k=f['k'], form=f['form'], v=v, text=text))
    order = {}
    for x in g:
        order.setdefault(x['s'], []).append(x)
    g = [x for s in sorted(order, key=lambda s: s != '') for x in order[s]]
    return dict(op='config', given=g, synth=synth, stem=str(rng.choice(['m', 'my hapua', 'a.b', 'x_1'])), faults=['%s.%s %s %s' % (f['s'], f['k'], f['form'], f['text'] or f['v']) for f in faults])


def em_config(rng, em, tier):
    out = []
    for e in em.get('LoadConfig', []):
        fs = [dict(f, k=f['k']) for f in e['faults']]
        syn = any(f['s'] in SYN for f in fs) or rng.random() < .3
        if any((f['s'], f['k']) in (('BoundaryConditions', ''), ('BoundaryConditions', 'RiverFlow'), ('BoundaryConditions', 'SeaLevel')) for f in fs):
            syn = False
        out.append(faulty(rng, fs, syn))
    rng.shuffle(out)
    return out[:q(tier, 1500, 9000)]


RANGES = dict(Kcoef=(0, 2), RhoSed=(2000, 3000), RhoSea=(1000, 1100), RhoRiv=(900, 1100), VoidRatio=(0, .9), Gravity=(1, 20), GammaRatio=(.1, 2), WaveDataDepth=(1, 40), ClosureDepth=(0, 20),
              BeachSlope=(0, 1), RiverSlope=(0, 1), GrainSize=(0, 1), CritShieldsStress=(0, .1), MPM_coef=(0, 9), MPM_exp=(0, 3), UpstreamLength=(1, 900), RiverWidth=(1, 900), RoughnessManning=(0, .3),
              GrainRoughness=(0, .3), WidthDepthRatio=(1, 50), BackshoreElev=(0, 30), MaxOutletElev=(-5, 5), OT_coef=(0, 1), OT_exp=(1, 4), BeachTopElev=(0, 5), SpitWidth=(0, 20), TargetBarHeight=(0, 9),
              TargetBarWidth=(21, 200), MinOutletWidth=(0, 20), OutletSedSpreadDist=(0, 500), OutletBankEroFac=(0, 1), BarrierPermeability=(0, 1), ShorelineErosionRate=(-3, 3))
OTHER = dict(NumericalParameters=dict(Dx=(1, 60), Beta=(.5, 2), Theta=(0, 1), Psi=(0, .5), ErrTol=(0, 1), WarnTol=(0, 1), MaxMorChange=(0, 1)),
             Time=dict(HydDt=(0, 99), MorDtMin=(0, 999), MorDtMax=(0, 9999)), OutputOptions=dict(OutInt=(0, 9999), TsOutInt=(0, 9999), LogInt=(0, 9999), PlotInt=(0, 9999)),
             InitialConditions=dict(OutletWidth=(0, 99), OutletBed=(-4, 4), LagoonBed=(-4, 4), BarrierElev=(-2, 9)))


def within(rng, n):
    """many values at once, each in its range; some left out"""
    out = []
    for _ in range(n):
        fs = []
        for s, ks in dict(OTHER, PhysicalParameters=RANGES).items():
            for k, (a, b) in ks.items():
                if rng.random() < .5:
                    v = float(rng.uniform(a, b))
                    fs.append(dict(s=s, k=k, form='real', v=v if rng.random() < .7 else float('%.3g' % v) if a < float('%.3g' % v) < b else v, text=''))
        for k in ('RhoSed', 'RhoSea', 'RhoRiv', 'VoidRatio', 'Gravity', 'GammaRatio', 'CritShieldsStress', 'MPM_coef', 'MPM_exp', 'OT_coef', 'OT_exp', 'OutletSedSpreadDist', 'OutletBankEroFac',
                  'BarrierPermeability', 'ShorelineErosionRate'):
            if rng.random() < .2:
                fs.append(dict(s='PhysicalParameters', k=k, form='absent', v=0., text=''))
        for k in ('Beta', 'Theta', 'Psi', 'ErrTol', 'MaxIt', 'WarnTol', 'MaxMorChange'):
            if rng.random() < .2:
                fs.append(dict(s='NumericalParameters', k=k, form='absent', v=0., text=''))
        out.append(faulty(rng, fs, bool(rng.random() < .5)))
    return out


def paths(rng, n):
    out = []
    for k in range(n):
        out.append(dict(op='paths', sub=str(rng.choice(['s', 'a b/c', '.'])), stem=str(rng.choice(['m', 'my hapua', 'a.b', 'v1.2.x'])), absolute=bool(rng.random() < .5),
                        full=[f for f in ('RiverFlow', 'WaveConditions', 'SeaLevel') if rng.random() < .3], missing=str(rng.choice(['', '', '', 'config', 'RiverFlow', 'WaveConditions', 'SeaLevel']))))
    return out


# --------------------------------------------------------------------- series
def grid(rng, a, b, short):
    """sample times (whole minutes) that cover a..b, or nearly"""
    n = int(rng.integers(2, 9))
    m = lambda x: 60. * float(np.round(x / 60.))
    lo = a - float(rng.choice([0, 60, 3600, 90000]))
    hi = b + float(rng.choice([0, 60, 3600, 90000]))
    if 'start' in short:
        lo = a + float(rng.choice([60, 3600]))
    if 'end' in short:
        hi = b - float(rng.choice([60, 3600]))
    lo, hi = (60. * np.floor(lo / 60.) if 'start' not in short else 60. * np.ceil(lo / 60.)), (60. * np.ceil(hi / 60.) if 'end' not in short else 60. * np.floor(hi / 60.))
    if hi <= lo:
        hi = lo + 60.
    t = {float(lo), float(hi)} | {m(v) for v in rng.uniform(lo, hi, n)} | {m(v) for v in (a, b) if rng.random() < .3 and lo < m(v) < hi}
    return sorted(x for x in t if lo <= x <= hi)


def one_series(rng, a, b, hi, shorts, syn, hot=None):
    v = lambda t, x, y: [float(z) for z in rng.uniform(x, y, len(t))]
    s = dict(op='series', start=a, end=b, hi=hi, hot='', **{'from': 0., 'continue': False})
    f0 = a
    if hot:
        s.update(hot)
        f0 = s['from'] if s['continue'] else a
    g = {k: grid(rng, f0, b, shorts.get(k, '')) for k in ('flow', 'waves', 'sea')}
    s['flow'] = dict(synth=False, first=0., t=g['flow'], cols=dict(v=v(g['flow'], 0, 900)))
    s['sea'] = dict(synth=False, t=g['sea'], cols=dict(v=v(g['sea'], -2, 2)))
    w = g['waves']
    s['waves'] = dict(synth=False, t=w, cols=dict(period=v(w, 4, 14), length=v(w, 20, 120), power=v(w, 0, 5e4), hs=v(w, 0, 6)),
                      dir=[float(x) for x in rng.choice([0., 90., 180., 270., 360., -90., 45.5, 720.], len(w))] if rng.random() < .3 else v(w, -400, 800))
    if syn.get('flow'):
        first = a
        given = bool(rng.random() < .5)
        if given:
            first = a + float(rng.choice([-86400 * 3, -600, 0, 3600], p=[.4, .2, .2, .2]))
        s['flow'].update(synth=True, word=str(rng.choice(['shotnoise', 'ShotNoise'])), given=given, first=float(first) if given else min(f0, a),
                         pars=dict(MeanDaysBetweenEvents=float(rng.uniform(.1, 9)), MeanEventIncrease=float(rng.uniform(1, 90)), FastDecayRate=float(rng.uniform(.1, 2)), FastFlowProp=1.,
                                   SlowDecayRate=.1, RisingLimbTime=.05, HydrographDt=float(rng.choice([15, 60, 7, 1440, 90])), RandomSeed=int(rng.integers(1000))))
    if syn.get('sea'):
        s['sea'].update(synth=True, word=str(rng.choice(['harmonic', 'Harmonic'])), pars=dict(MeanSeaLevel=float(rng.uniform(-1, 1)), TidalRange=float(rng.uniform(0, 4)), SeaLevelDt=float(rng.choice([10, 60, 7, 45]))))
    return s


def em_series(rng, em, tier):
    out = []
    for e in em.get('LoadSeries', []):
        u = float(rng.choice([60., 3600., 86400.]))
        s = one_series(rng, e['a'] * u, e['b'] * u, e['hi'] * u, {}, {})
        for k in ('flow', 'waves', 'sea'):
            t = [x * u for x in e['t']] if k == e['kind'] else [e['a'] * u, e['b'] * u]
            s[k]['t'] = t
            s[k]['cols'] = {c: [float(x) for x in rng.uniform(0, 9, len(t))] for c in s[k]['cols']}
            if k == 'waves':
                s[k]['dir'] = [float(x) for x in rng.uniform(-180, 540, len(t))]
        out.append(s)
    rng.shuffle(out)
    return out[:q(tier, 300, 3000)]


def many_series(rng, n):
    out = []
    for k in range(n):
        a = float(rng.integers(-5000, 5000)) * 60. + float(rng.choice([0, 0, 17]))
        b = a + float(rng.choice([3600, 7200, 86400, 777., 40000]))
        hi = float(rng.choice([60, 960, 90000]))
        shorts = {}
        if rng.random() < .4:
            shorts[str(rng.choice(['flow', 'waves', 'sea']))] = str(rng.choice(['start', 'end', 'start end']))
        syn = dict(flow=rng.random() < .25, sea=rng.random() < .25)
        hot = None
        if rng.random() < .25:
            dx = float(rng.choice([5., 10., 12.3]))
            h = outdom.header(rng, dx=dx)
            h['start'] = float(60 * round((a - 7200) / 60))
            t = 60. * np.floor(a / 60) + float(rng.choice([60, 600, 1800]))
            hot = dict(hot='h.nc', h=h, recs=[outdom.snapshot(rng, h, h['start'], hot=True), outdom.snapshot(rng, h, float(t), hot=True)], ask=float(t) + float(rng.choice([0, 0, 20, -20])), **{'from': float(t), 'continue': bool(rng.random() < .6)})
            b = float(max(b, t + 600))
        out.append(one_series(rng, a, b, hi, shorts, syn, hot))
    return out


# ------------------------------------------------------------------- geometry
def initial(rng):
    I = dict(OutletWidth=float(rng.choice([5., 10., 20., 33.3])), OutletBed=float(rng.uniform(-3, 1)), LagoonBed=float(rng.uniform(-3, 1)), BarrierElev=float(rng.uniform(2, 6)))
    P = dict(RiverSlope=float(rng.choice([.003, 0., .01, rng.uniform(0, .02)])), UpstreamLength=float(rng.choice([100., 60., 1000., rng.uniform(20, 500)])), RiverWidth=float(rng.uniform(20, 90)),
             SpitWidth=float(rng.uniform(3, 15)))
    for k, (a, b) in RANGES.items():        # the other parameters must not matter here
        if k not in P and rng.random() < .3:
            P[k] = float(rng.uniform(a, b))
    if rng.random() < .2:
        P['MinOutletWidth'] = float(rng.choice([2., 15., 60.]))
    return I, P


def spacing(rng):
    return float(rng.choice([5., 10., 20., 2.5, 12.3, 7.7, 33.3, round(float(rng.uniform(3, 40)), 2)]))


def straight(rng, n):
    out = []
    while len(out) < n:
        I, P = initial(rng)
        Dx = spacing(rng)
        far = lambda: float(rng.choice([Dx * int(rng.integers(1, 30)), rng.uniform(0, 900), float(rng.integers(0, 900)), 0.]))
        S = dict(ShorelineLengthLeft=far(), ShorelineLengthRight=far(), BeachWidth=float(rng.uniform(5, 90)))
        # lengths that are a whole number of intervals but for rounding
        if any(abs(v / Dx - round(v / Dx)) < 1e-6 and v / Dx != round(v / Dx) for v in (S['ShorelineLengthLeft'], S['ShorelineLengthRight'], P['UpstreamLength'])):
            continue
        out.append(dict(op='straight', S=S, I=I, P=P, Dx=Dx))
    return out


def real_shapes(rng, I, Dx):
    """a shore with its lagoon, cliff, outlet and river, turned and moved into the world"""
    L, R = float(rng.uniform(8, 20)) * Dx, float(rng.uniform(8, 20)) * Dx
    curve = float(rng.choice([0., 3., 15.]))
    shore_y = lambda x: curve * np.sin(x / (L + R) * 5 + ph) + 1.5 * np.cos(x / 37. + ph)
    ph = float(rng.uniform(0, 6))
    nx = lambda a, b, n: np.sort(np.concatenate([[a, b], rng.uniform(a, b, n)]))
    xs = nx(-L, R, int(rng.integers(2, 25)))
    shore = [[x, float(shore_y(x))] for x in xs]
    wid = float(rng.uniform(1.6, 4)) * I['OutletWidth'] + 10.
    back = lambda x: shore_y(x) - wid + 2 * np.sin(x / 50.)
    xc = nx(-L - Dx * 2, R + Dx * 2, int(rng.integers(2, 15)))
    deep = float(rng.uniform(20, 60))
    cliff = [[x, float(back(x) - deep)] for x in xc]
    if rng.random() < .2:       # an overhang
        k = int(rng.integers(1, len(cliff) - 1))
        x, y = cliff[k]
        cliff[k:k + 1] = [[x, y], [x + 1.6 * Dx, y - 12.], [x + .4 * Dx, y - 20.], [x + 2.2 * Dx, y - 22.]]
        cliff = cliff[:k + 4] + [c for c in cliff[k + 4:] if c[0] > x + 2.2 * Dx]
        if cliff[-1][0] < R + Dx:
            cliff.append([R + 2 * Dx, float(back(R) - deep)])
    la, lb = -float(rng.uniform(.1, .8)) * L, float(rng.uniform(.1, .8)) * R
    xl = nx(la, lb, int(rng.integers(1, 12)))
    lagoon = [[x, float(back(x))] for x in xl]
    if rng.random() < .4:       # an outline rather than a line
        lagoon += [[x, y - deep * .8] for x, y in reversed(lagoon)]
        lagoon.append(list(lagoon[0]))
    side = float(rng.choice([-1, 1]))
    kind = rng.random()
    if kind < .3:               # straight out between transects
        k = int(rng.integers(-3, 3))
        c = (k + float(rng.uniform(.2, .8))) * Dx
        dx = float(rng.uniform(.02, .12)) * Dx * side
        oxs = [c - dx, c + dx]
    else:
        c = float(rng.uniform(la, lb)) * .6
        ln = float(rng.uniform(.3, 6)) * Dx
        oxs = list(np.linspace(c, c + side * ln, int(rng.integers(2, 6))))
    m = len(oxs)
    mid = [float(back(x) + wid * (.5 + float(rng.uniform(-.25, .25) if rng.random() < .3 else 0))) for x in oxs]
    mid[0] = float(back(oxs[0]) - 1.)
    mid[-1] = float(shore_y(oxs[-1]) + 3.)
    if m > 2 and rng.random() < .7:
        for j in range(1, m - 1):
            mid[j] = float(back(oxs[j]) + wid * .5)
    outlet = [[float(x), y] for x, y in zip(oxs, mid)]
    bad = rng.random()
    if bad < .06 and m > 2:
        outlet.insert(1, [oxs[0] + side * 2.3 * Dx, mid[0] + 2.])
    elif bad < .12 and len(shore) > 4:
        k = int(rng.integers(1, len(shore) - 2))
        shore[k], shore[k + 1] = shore[k + 1], shore[k]
    elif bad < .18:
        lagoon[0][0] = -L - Dx * 1.5
    elif bad < .22:
        cliff = [p for p in cliff if p[0] < R * .5]
    river = [float(rng.uniform(-1, 1)), -wid - deep - float(rng.uniform(0, 200))]
    flip = lambda p: list(reversed(p)) if rng.random() < .5 else p
    th = float(rng.choice([0., np.pi, .3, -.8, 2.4])) if rng.random() < .3 else float(rng.uniform(-np.pi, np.pi))
    while abs(np.cos(th)) < .45:
        th = float(rng.uniform(-np.pi, np.pi))
    ox, oy = (float(rng.uniform(1e6, 2e6)), float(rng.uniform(4.9e6, 6e6))) if rng.random() < .6 else (float(rng.uniform(-500, 500)), float(rng.uniform(-500, 500)))
    turn = lambda p: [ox + p[0] * float(np.cos(th)) + p[1] * float(np.sin(th)), oy - p[0] * float(np.sin(th)) + p[1] * float(np.cos(th))]
    return dict(shore=flip([turn(p) for p in shore]), lagoon=flip([turn(p) for p in lagoon]), cliff=flip([turn(p) for p in cliff]), outlet=flip([turn(p) for p in outlet]), river=turn(river))


def from_shapes(rng, n):
    out = []
    for _ in range(n):
        I, P = initial(rng)
        Dx = float(rng.choice([10., 20., 12.3, 15.]))
        while abs(P['UpstreamLength'] / Dx - round(P['UpstreamLength'] / Dx)) < 1e-6:
            P['UpstreamLength'] += 3.
        fault = ''
        if rng.random() < .08:
            fault = str(rng.choice(['kind', 'two', 'missing'])) + ':' + str(rng.choice(['shore', 'river', 'lagoon', 'cliff', 'outlet']))
        k = int(rng.integers(2, 6))
        out.append(dict(op='shapes', SH=real_shapes(rng, I, Dx), I=I, P=P, Dx=Dx, fault=fault, dirs=[float(x) for x in rng.uniform(-360, 720, k)]))
    return out


# ----------------------------------------------------------- generated series
def tides(rng, n):
    out = []
    for _ in range(n):
        a = float(rng.integers(-10 ** 6, 10 ** 6))
        out.append(dict(op='tide', start=a, end=a + float(rng.choice([3600, 86400, 5 * 86400, float(rng.integers(0, 10 ** 5)), 0])), int=float(rng.choice([60, 600, 3600, 420, 7200, 90000, 1000])),
                        mean=float(rng.uniform(-2, 2)), range=float(rng.choice([0, 1, rng.uniform(0, 12)]))))
    return out


def shots(rng, n):
    out = []
    for _ in range(n):
        a = float(rng.integers(-10 ** 5, 10 ** 5)) * float(rng.choice([60., 3600.]))
        gap = float(rng.choice([.2, 1., 5., 15.]) * rng.uniform(.7, 1.4))
        s = dict(op='shot', start=a, end=a + float(rng.choice([3600, 86400, 5 * 86400, float(rng.integers(1, 10 ** 6))])), int=float(rng.choice([3600, 900, 1800, 7200, 25200, 86400])), calc=0.,
                 gap=gap, m=float(rng.choice([1., 50., 300.])), k1=float(rng.uniform(.05, 3)), p=float(rng.choice([1., .9, .5, 0.])), k2=float(rng.uniform(.005, .5)), has2=True,
                 rise=float(rng.choice([1 / 1440, .02, .2]) * min(1., gap)), seed=int(rng.choice([0, 1, 12345, int(rng.integers(1 << 20)), int(rng.integers(1 << 20)), int(rng.integers(1 << 31))])), limit=60)
        if rng.random() < .15:
            s['calc'] = s['int'] / float(rng.choice([2, 8]))
        if s['p'] == 1. and rng.random() < .5:
            s['has2'] = False
            s['k2'] = s['k1']
        r = rng.random()
        if r < .04:
            s['k1'] = float(rng.choice([0., -1.]))
        elif r < .08:
            s['p'] = float(rng.choice([-.1, 1.2]))
        elif r < .12:
            s['p'], s['has2'] = .5, False
        elif r < .15:
            s['p'], s['k2'] = .5, float(rng.choice([0., -.1]))
        elif r < .18:
            s['rise'] = float(rng.choice([0., -.1]))
        out.append(s)
    return out


def coords(rng, n):
    out = []
    for k in range(n):
        big = rng.random() < .5
        o = [float(rng.uniform(1e6, 2e6)), float(rng.uniform(5e6, 6e6))] if big else [float(x) for x in rng.uniform(-9, 9, 2)]
        pts = [[o[0] + float(x), o[1] + float(y)] for x, y in rng.uniform(-3000, 3000, (int(rng.integers(1, 6)), 2))] + [list(o)]
        out.append(dict(op='coords', origin=o, norm=float(rng.choice([0., np.pi / 2, -np.pi, np.pi, rng.uniform(-7, 7)])), points=pts))
        m = int(rng.integers(2, 9))
        g = (lambda: float(rng.integers(0, 6))) if rng.random() < .6 else (lambda: float(rng.uniform(0, 6)))
        ln = [[g(), g()] for _ in range(m)]
        if rng.random() < .4:
            ln.append(list(ln[0]))
        out.append(dict(op='cross', line=ln, x=float(rng.integers(0, 6)) if rng.random() < .6 else float(rng.uniform(0, 6))))
        # a line, steeper than 1.4 at both ends, between two trim lines no steeper than 1
        k = int(rng.integers(2, 9))
        t = np.sort(rng.choice(np.arange(-60, 61), k, replace=False)).astype(float)
        t[0], t[-1] = -80., 80.
        if rng.random() < .5:
            t[1:-1] += rng.uniform(-.4, .4, k - 2)
        y = lambda: [float(v) for v in np.cumsum(np.diff(t, prepend=t[0]) * rng.uniform(-1, 1, k) * (.15 if rng.random() < .7 else .6)).round(int(rng.integers(0, 9)))]
        m = int(rng.integers(2, 6))
        dy = rng.uniform(.5, 9, m - 1).round(int(rng.integers(1, 5)))
        dx = np.where(rng.random(m - 1) < .2, 0., rng.uniform(-.7, .7, m - 1) * dy)
        X, Y = float(rng.uniform(-25, 25)) + np.concatenate([[0.], np.cumsum(dx)]), float(rng.uniform(-20, 10)) + np.concatenate([[0.], np.cumsum(dy)])
        a, b = y(), y()
        if max(abs(np.diff(a) / np.diff(t)).max(), abs(np.diff(b) / np.diff(t)).max()) < 1.2 and abs(X).max() + .7 * max(abs(np.array(a + b)).max() + abs(Y).max(), 1) * 1.6 < 78:
            out.append(dict(op='trim', line=[[float(u), float(v)] for u, v in zip(X, Y)], t=[float(v) for v in t], a=a, b=b))
    return out


def mc(name, what, inv, seen, quick, thorough, emit=True):
    return dict(name=name, module='MC_Load', emit=emit, timeout=850, invariants=inv, nonvacuous=seen,
                cfg=lambda tier, seed: 'SPECIFICATION Spec\nCONSTANTS What = "%s" Every = %d Seed = %d Deep = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
                % (what, q(tier, *[quick, thorough][0:2]), seed, q(tier, 0, 1), ' '.join(inv)))


MC = dict(
    LoadConfig=mc('LoadConfig', 'config', ['DefaultsHold', 'FaultsFound', 'EmittedConfig'], ['out of range', 'missing', 'fine'], 400, 40),
    LoadSeries=mc('LoadSeries', 'series', ['TrimSafe', 'EmittedSeries'], ['trimmed', 'short'], 17, 5),
    LoadPlace=mc('LoadPlace', 'place', ['Isometric', 'RoundTrip', 'SameModel', 'Mirrored', 'StraightSound', 'TrimSound'], ['to the left', 'between', 'turned', 'extended', 'cut'], 1, 1, emit=False),
    LoadSynth=mc('LoadSynth', 'synth', ['TideSound', 'FlowSound'], ['tide', 'events'], 1, 1, emit=False),
)
SUITES = dict(
    config=dict(gen=lambda r, t, em: em_config(r, em, t) + within(r, q(t, 150, 2500)) + paths(r, q(t, 60, 500)), module='TrLoad'),
    series=dict(gen=lambda r, t, em: em_series(r, em, t) + many_series(r, q(t, 500, 6000)), module='TrLoad'),
    straight=dict(gen=lambda r, t, em: straight(r, q(t, 400, 6000)), module='TrLoad'),
    shapes=dict(gen=lambda r, t, em: from_shapes(r, q(t, 400, 5000)), module='TrLoad'),
    tide=dict(gen=lambda r, t, em: tides(r, q(t, 500, 6000)), module='TrLoad'),
    shot=dict(gen=lambda r, t, em: shots(r, q(t, 150, 2000)), module='TrLoad'),
    coords=dict(gen=lambda r, t, em: coords(r, q(t, 600, 9000)), module='TrLoad'),
)
PROPS = dict(
    L01=dict(slug='config-validation', mc=['LoadConfig'], suites=['config']),
    L02=dict(slug='series-coverage', mc=['LoadSeries'], suites=['series']),
    L03=dict(slug='initial-geometry', mc=['LoadPlace'], suites=['straight']),
    L04=dict(slug='shapefile-geometry', mc=['LoadPlace'], suites=['shapes']),
    L05=dict(slug='derived-inputs', mc=['LoadConfig'], suites=['config', 'series', 'shapes']),
    L06=dict(slug='harmonic-tide', mc=['LoadSynth'], suites=['tide']),
    L07=dict(slug='shot-noise', mc=['LoadSynth'], suites=['shot']),
    L08=dict(slug='coordinates', mc=['LoadPlace'], suites=['coords']),
)
