"""Scenario generation: model states and parameters."""
import math
import numpy as np

NAN = float('nan')


def params(rng, exact=False, **kw):
    u = rng.uniform
    c = rng.choice
    p = dict(Dx=float(c([5., 10., 20., 25., 50., 12.5])),
             MinOutletWidth=float(c([1., 2., 5., 8.])),
             RiverWidth=float(c([40., 70., 100.])),
             MaxOutletElev=float(c([-2.0, -1.5, -1.0])),
             SpitWidth=float(c([5., 10., 16.])),
             BeachTopElev=float(c([1.5, 2.0, 3.0])),
             BackshoreElev=float(c([10., 20., 30.])),
             ClosureDepth=float(c([5., 6., 8.])),
             WidthDepthRatio=float(c([10., 30., 60.])),
             OutletSedSpreadDist=float(c([30., 100., 250.])),
             OutletBankEroFac=float(c([0.0, 0.5, 1.0])),
             ShorelineErosionRate=float(c([0., 0.5, -1.0])),
             RhoSed=2650., RhoSea=1025., RhoRiv=1000., Gravity=9.81, VoidRatio=float(c([0.3, 0.4])),
             GrainSize=float(c([0.01, 0.025, 0.04])), CritShieldsStress=0.0495,
             MPM_coef=float(c([3.97, 8.0])), MPM_exp=1.5,
             RoughnessManning=float(c([0.03, 0.04])), GrainRoughness=float(c([0.025, 0.035])),
             OT_coef=float(c([0.0002, 0.001])), OT_exp=float(c([2.0, 1.5, 1.0])),
             TargetBarHeight=4.8, TargetBarWidth=90.,
             BeachSlope=0.13, BarrierPermeability=float(c([0., 0.0005, 0.002])),
             WaveDataDepth=float(c([8., 10., 12.])), GammaRatio=float(c([0.5, 0.78])), Kcoef=0.03)
    p.update(kw)
    finish(p)
    return p


def finish(p):
    p['K2coef'] = p['Kcoef'] / ((p['RhoSed'] - p['RhoSea']) * p['Gravity'] * (1 - p['VoidRatio']))
    p['BreakerCoef'] = 8.0 / (p['RhoSea'] * p['Gravity'] ** 1.5 * p['GammaRatio'] ** 2.0)
    p['BarRatSlope'] = (p['TargetBarHeight'] - p['BeachTopElev']) / (p['TargetBarWidth'] - p['SpitWidth'])
    p['BarRatInt'] = p['BeachTopElev'] - p['BarRatSlope'] * p['SpitWidth']
    return p


def q8(v, exact):
    return round(v * 8) / 8 if exact else v


def state(rng, p, exact=None, closed=None, side=None, wide=False, nmax=8, thin=0.25, hyd=True,
          relic=0.3, offtransect=0.15, diranom=0.15):
    """A profile-consistent model state.

    side: 'R', 'L', 'I' (outlet in line with the river); wide=True never gives a blocked outlet or lagoon.
    """
    if exact is None:
        exact = rng.random() < 0.5
    Q = lambda v: q8(v, exact)
    Dx, Min = p['Dx'], p['MinOutletWidth']
    nl, nr = int(rng.integers(2, nmax + 1)), int(rng.integers(2, nmax + 1))
    n = nl + nr + 1
    x = [(i - nl) * Dx for i in range(n)]
    if side is None:
        side = rng.choice(['R', 'L', 'I'], p=[.4, .4, .2])
    if closed is None:
        closed = bool(rng.random() < 0.25) and not wide
    # lagoon extent and widths
    la, lb = int(rng.integers(1, nl + 1)), int(rng.integers(nl, n - 1))
    w = np.zeros(n)
    for i in range(n):
        if la <= i <= lb:
            w[i] = Q(rng.uniform(2.2 * Min, 60.))
        else:
            w[i] = 0. if rng.random() < 0.8 else -Q(rng.uniform(0, 0.02))
    w[nl] = Q(rng.uniform(max(2 * Min, 10), 80.))
    # outlet ends
    if side == 'I':
        k0 = nl
    elif side == 'R':
        k0 = int(rng.integers(nl + 1, n - 1)) if nl + 1 < n - 1 else nl + 1
    else:
        k0 = int(rng.integers(1, nl)) if nl > 1 else 0
    k0 = min(max(k0, 1), n - 2)
    # lagoon must reach the outlet in a consistent open state
    if not closed or rng.random() < 0.5:
        for i in range(min(k0, nl), max(k0, nl) + 1):
            if w[i] <= 2 * Min:
                w[i] = Q(rng.uniform(2.5 * Min, 40.))
    away = (side == 'R') or (side == 'I' and rng.random() < 0.5)
    if rng.random() < diranom:
        away = not away
    e0 = x[k0]
    span = int(rng.integers(0, 4))
    frac = rng.choice([0.0, 0.25, 0.5, 0.75]) if exact else rng.random()
    if away:      # left to right
        e1 = min(e0 + span * Dx + frac * Dx, x[n - 2])
    else:
        e1 = max(e0 - span * Dx - frac * Dx, x[1])
    if rng.random() < offtransect and e0 != 0 and e1 != e0:
        d = Dx * 0.25 * (1 if e1 < e0 else -1)
        if x[1] <= e0 + d <= x[n - 2] and (e0 + d) * e0 > 0:
            e0 += d
    if not wide and not closed or closed:
        for i in range(n):
            if i != nl and w[i] > 0 and rng.random() < thin * 0.5:
                w[i] = float(rng.choice([0.0, Min * 0.5, Min, Min * 1.001, 1e-3]))
    # profile
    y4 = np.array([Q(-rng.uniform(60, 120)) for _ in range(n)])
    y3 = y4 + w
    bar = np.array([Q(rng.uniform(40, 100)) for _ in range(n)])   # barrier total width
    z0 = np.array([Q(rng.uniform(2.5, 5.0)) for _ in range(n)])
    z3 = np.array([Q(rng.uniform(-2.0, 0.2)) for _ in range(n)])
    y1 = np.full(n, NAN); y2 = np.full(n, NAN); z1 = np.full(n, NAN); z2 = np.full(n, NAN)
    lo, hi = min(e0, e1), max(e0, e1)
    onl = [i for i in range(n) if lo <= x[i] <= hi]
    for i in range(n):
        isrelic = i not in onl and rng.random() < relic
        if i in onl or isrelic:
            ow = Q(rng.uniform(2.5 * Min, 25.))
            if not wide and rng.random() < thin * (0.15 if not isrelic else 1.0):
                ow = float(rng.choice([0.0, Min * 0.5, Min, Min * 1.25]))
            back = Q(rng.uniform(2, 20))
            y2[i] = y3[i] + max(back, 0.125)
            y1[i] = y2[i] + ow
            bar[i] = (y1[i] - y3[i]) + Q(rng.uniform(2, 30))
            z1[i] = Q(rng.uniform(-2.0, 0.5))
            z2[i] = Q(rng.uniform(2.0, 5.0))
    y0 = y3 + bar
    ew = Q(rng.uniform(2.2 * Min, 30.))
    if not wide and rng.random() < thin * 0.2:
        ew = float(rng.choice([Min, Min * 0.5, Min * 1.001]))
    ee = Q(rng.uniform(-2.5, -0.5))
    if closed and rng.random() < 0.4:
        e0 = NAN
    s = dict(x=x, y0=list(y0), y1=list(y1), y2=list(y2), y3=list(y3), y4=list(y4), z0=list(z0), z1=list(z1),
             z2=list(z2), z3=list(z3), e=[float(e0), float(e1)], ew=float(ew), ee=float(ee), closed=closed)
    if hyd:
        nriv = int(rng.integers(2, 6))
        rz = [Q(v) for v in np.linspace(1.5, 0.0, nriv)]
        lev = rng.uniform(0.8, 2.0)
        s['rz'] = rz
        s['rd'] = [float(Q(rng.uniform(0.5, 2.0))) for _ in rz]
        s['rv'] = [float(Q(rng.uniform(0.3, 1.5))) for _ in rz]
        s['lwl'] = [float(z3[i] + max(Q(lev - z3[i] + rng.uniform(-.1, .1)), 0.25)) for i in range(n)]
        s['lvl'] = [float(Q(rng.uniform(-0.2, 1.0))) if rng.random() < .8 else NAN for i in range(n)]
        s['od'] = [float(Q(rng.uniform(0.3, 2.5))) if rng.random() < .8 else NAN for i in range(n)]
        s['ov'] = [float(Q(rng.uniform(-0.5, 2.0))) if rng.random() < .8 else NAN for i in range(n)]
        s['oed'] = [float(Q(rng.uniform(0.5, 2.5))), float(Q(rng.uniform(0.5, 2.5)))]
        s['oev'] = [float(Q(rng.uniform(0.1, 2.5))), float(Q(rng.uniform(0.1, 2.5)))]
        if rng.random() < 0.2:
            s['oed'] = [NAN, NAN]
            s['oev'] = [NAN, NAN]
        elif rng.random() < 0.1:    # single (post-processing) outlet end
            s['oed'] = s['oed'][:1]
            s['oev'] = s['oev'][:1]
    s = {k: (list(map(float, v)) if isinstance(v, list) else v) for k, v in s.items()}
    return s
