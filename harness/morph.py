"""Scenarios for the morphological updating."""
import numpy as np
import gen
from gen import NAN


def q(tier, a, b):
    return a if tier == 'quick' else b


def layout(s, p):
    """Which transects the channel consists of (only to build inputs; Channel.tla decides what they should be)."""
    x, e, n = s['x'], s['e'], len(s['x'])
    x0 = x.index(0.0)
    w = [s['y3'][i] - s['y4'][i] for i in range(n)]
    ltr = e[0] < e[1]
    lo, hi = (e[0], e[1]) if ltr else (e[1], e[0])
    oix = [i for i in range(n) if lo <= x[i] <= hi]
    if not ltr:
        oix = oix[::-1]
    ow = [s['y1'][i] - s['y2'][i] for i in oix]
    blocked = any(not v > p['MinOutletWidth'] for v in ow) or s['ew'] <= p['MinOutletWidth'] or not oix
    cl = s['closed'] or blocked
    right = e[0] >= 0
    if cl:
        wet = [i for i in range(n) if w[i] > 0]
        full = list(range(x0, wet[-1] + 1)) if right else list(range(x0, wet[0] - 1, -1))
        oix = []
    elif e[0] == 0:
        full = [x0]
    elif right:
        full = [i for i in range(x0, n) if x[i] < e[0]]
    else:
        full = [i for i in range(x0, -1, -1) if x[i] > e[0]]
    on = []
    for i in full:
        if w[i] < p['MinOutletWidth']:
            cl = True
            break
        on.append(i)
    return on, oix, cl


def base(rng, p, **kw):
    kw.setdefault('relic', .35)
    while True:
        s = gen.state(rng, p, hyd=False, **kw)
        n = len(s['x'])
        for i in (0, n - 1):        # no channel at the edge of the model
            for k in ('y1', 'y2', 'z1', 'z2'):
                s[k][i] = NAN
        x0 = s['x'].index(0.0)
        if s['y3'][x0] - s['y4'][x0] < p['MinOutletWidth']:
            continue
        nriv = int(rng.integers(2, 5))
        s['rz'] = [float(v) for v in np.linspace(1.5, 0.0, nriv) + rng.uniform(-.2, .2, nriv)]
        on, oix, cl = layout(s, p)
        if not on:
            continue
        if not cl and any(np.isnan(s['y1'][i]) for i in oix):
            continue
        return s


def inputs(rng, s, p, lstmag=.02, qmag=.02, cstmag=2e-5, dt=None):
    on, oix, cl = layout(s, p)
    n = len(s['x'])
    nriv = len(s['rz'])
    fl = [0] * nriv + [1] * len(on) + ([] if cl else [2] * len(oix) + [3, 4])
    b = [p['RiverWidth']] * nriv + [s['y3'][i] - s['y4'][i] for i in on]
    if not cl:
        b += [s['y1'][i] - s['y2'][i] for i in oix] + [s['ew']] * 2
    h = [float(v) for v in rng.uniform(.2, 3.5, len(fl))]
    qs = rng.uniform(-.3, 1, len(fl) - 1) * qmag
    u = rng.random()
    if u < .3:
        qs[:] = np.abs(qs[0])
    lst = rng.uniform(-1, 1, n - 1) * lstmag
    u = rng.random()
    if u < .2:
        lst[:] = abs(lst[0])
    elif u < .4:
        lst[:] = -abs(lst[0])
    elif u < .6:
        lst[:] = np.linspace(lst[0], lst[-1], n - 1)
    elif u < .65:
        lst[:] = 0
    cst = rng.uniform(0, 1, n) * cstmag * (rng.random(n) < .6)
    ow = (rng.random(n) < .5).astype(float)
    for i in range(n):
        if np.isnan(s['y1'][i]) and s['y3'][i] <= s['y4'][i]:
            ow[i] = 0.
        elif s['y1'][i] <= s['y2'][i]:
            ow[i] = 1.
    lev = float(rng.uniform(.5, 2.))
    lwl = [lev + float(rng.uniform(-.05, .05)) for _ in range(n)]
    od = [NAN] * n
    for i in oix:
        od[i] = max(lev - s['z1'][i], .2)
    return dict(on=on, oix=oix, fl=fl, b=[float(v) for v in b], h=h, qs=[float(v) for v in qs], lst=[float(v) for v in lst],
                cst=[float(v) for v in cst], ow=[float(v) for v in ow], lwl=lwl, od=od, closed=bool(cl),
                dt=float(dt or rng.choice([30., 60., 120., 300.])))


def fixed(i, maxchg=1e6):
    return dict(lo=i['dt'], hi=i['dt'], maxchg=maxchg)


def pars(rng):
    return gen.params(rng, BackshoreElev=float(rng.choice([10., 20., 30.])))


def rates(rng, n):
    out = []
    for _ in range(n):
        p = pars(rng)
        s = base(rng, p, wide=bool(rng.random() < .8))
        i = inputs(rng, s, p)
        out.append(dict(op='morph', fam='rates', s=s, p=p, i=i, t=fixed(i)))
    return out


def adapt(rng, n):
    out = []
    for _ in range(n):
        p = pars(rng)
        s = base(rng, p, wide=True)
        lo = float(rng.choice([30., 60., 600.]))
        hi = lo * float(rng.choice([1, 2, 3, 8, 32, 60]))
        dt = float(min(hi, lo * rng.choice([1, 1.5, 2, 5, 16])))
        mag = float(10 ** rng.uniform(-6, -1.2))
        i = inputs(rng, s, p, lstmag=mag, qmag=mag, cstmag=mag * 1e-3, dt=dt)
        out.append(dict(op='morph', fam='adapt', s=s, p=p, i=i, t=dict(lo=lo, hi=hi, maxchg=float(rng.choice([.1, .25, .5])))))
    return out


def crowd(rng, s, p, kinds, prob=.35, gap=.03):
    """bring features to within `gap` of each other"""
    n = len(s['x'])
    x0 = s['x'].index(0.0)
    for i in range(n):
        if rng.random() > prob:
            continue
        g = float(rng.uniform(0, gap))
        k = str(rng.choice(kinds))
        has = s['y1'][i] == s['y1'][i]
        w = s['y3'][i] - s['y4'][i]
        if k == 'sea' and has:
            s['y0'][i] = s['y1'][i] + g + 1e-4
        elif k == 'fill' and has:
            s['y1'][i] = s['y2'][i] + g * .3
            if rng.random() < .5:
                s['z0'][i] = s['z2'][i] + float(rng.uniform(-.03, .03))
        elif k == 'lagoon' and has:
            d = s['y2'][i] - s['y3'][i] - g * (1 if rng.random() < .7 else -1)
            s['y3'][i] += d
            if rng.random() < .6 or i == x0:
                s['y4'][i] += d
            w = s['y3'][i] - s['y4'][i]
        elif k == 'cliff' and has and i != x0 and w <= 0 and rng.random() < .7:
            s['y4'][i] = s['y2'][i] - g
            s['y3'][i] = s['y4'][i]
        elif k == 'cliff' and not has and w <= 0:
            s['y4'][i] = s['y3'][i] = s['y0'][i] - g - 1e-4
        elif k == 'barrier' and not has and w > 0:
            d = s['y0'][i] - s['y3'][i] - g - 1e-4
            s['y3'][i] += d
            s['y4'][i] += d
        elif k == 'sliver' and not has and i != x0:       # a sliver of barrier in front of a sliver of lagoon
            s['y3'][i] = s['y0'][i] - g - 1e-5
            s['y4'][i] = s['y3'][i] - float(10 ** rng.uniform(-5, -1.5))
        elif k == 'pinch' and i != x0:
            s['y4'][i] = s['y3'][i] - float(rng.choice([0., g, p['MinOutletWidth'], p['MinOutletWidth'] + g]))
        elif k == 'narrow' and has:
            s['y1'][i] = s['y2'][i] + p['MinOutletWidth'] * float(rng.choice([.5, 1.05, 1.5]))
            s['y0'][i] = max(s['y0'][i], s['y1'][i] + .5)
    return s


def valid(s, p):
    n = len(s['x'])
    x0 = s['x'].index(0.0)
    if s['y3'][x0] - s['y4'][x0] < p['MinOutletWidth']:
        return False
    for i in range(n):
        inner = s['y1'][i] if s['y1'][i] == s['y1'][i] else s['y3'][i]
        if not s['y0'][i] > inner:
            return False
    return bool(layout(s, p)[0])


def mouth(rng, n):
    """the seaward end of the outlet on the move"""
    out = []
    while len(out) < n:
        p = pars(rng)
        s = base(rng, p, closed=False, wide=True)
        if rng.random() < .6:     # about to pass a transect
            m = len(s['x'])
            k = int(rng.integers(1, m - 1))
            e1 = s['x'][k] + float(rng.uniform(-.05, .05))
            d = s['x'][1] - s['x'][0]
            i0 = min(range(m), key=lambda j: abs(s['x'][j] - s['e'][0]))
            if abs(k - i0) <= 3 and s['x'][1] <= e1 <= s['x'][-2]:
                s['e'][1] = e1
                lo, hi = sorted(s['e'])
                for j in range(m):
                    if lo <= s['x'][j] <= hi and s['y1'][j] != s['y1'][j]:
                        s['y2'][j] = max(s['y3'][j], s['y4'][j]) + 3.
                        s['y1'][j] = s['y2'][j] + 2.5 * p['MinOutletWidth']
                        s['y0'][j] = max(s['y0'][j], s['y1'][j] + 4.)
                        s['z1'][j], s['z2'][j] = -1., s['z0'][j] - .3
        if rng.random() < .5:
            crowd(rng, s, p, ['sea'], .4)
        if rng.random() < .2:
            crowd(rng, s, p, ['lagoon'], .4)
        if not valid(s, p):
            continue
        if layout(s, p)[2]:
            continue
        i = inputs(rng, s, p, lstmag=.02, qmag=.01, cstmag=0.)
        if rng.random() < .2:    # a long way in one step
            i['dt'] = float(rng.choice([1800., 7200.]))
            i['lst'] = [float(np.mean(i['lst']))] * len(i['lst'])
        if rng.random() < .1:
            landed(rng, s, p, i)
        out.append(dict(op='morph', fam='mouth', s=s, p=p, i=i, t=fixed(i)))
    return out


def landed(rng, s, p, i):
    """the mouth has come to lie exactly on the next transect"""
    if i['closed'] or not i['oix']:
        return
    d = 1 if s['e'][0] < s['e'][1] else -1
    k = i['oix'][-1] + d
    if s['e'][0] == s['e'][1] or not 1 <= k <= len(s['x']) - 2 or not s['y1'][i['oix'][-1]] == s['y1'][i['oix'][-1]]:
        return
    s['e'][1] = s['x'][k]
    i['lst'][k - 1] = i['lst'][k] = 0.       # nothing that says which side of the transect it is
    i['qs'] = [0.] * len(i['qs'])


def conflict(rng, n):
    out = []
    while len(out) < n:
        p = pars(rng)
        s = base(rng, p, thin=.3, relic=.6)
        kinds = ['sea', 'fill', 'lagoon', 'cliff', 'barrier'] + ['sliver'] * int(rng.integers(0, 3))
        crowd(rng, s, p, kinds, .5, gap=float(10 ** rng.uniform(-3.5, -1.5)))
        if not valid(s, p):
            continue
        i = inputs(rng, s, p, lstmag=.03, qmag=.02, cstmag=1e-4)
        out.append(dict(op='morph', fam='conflict', s=s, p=p, i=i, t=fixed(i)))
    return out


def relic_breach(rng):
    """a closed lagoon, a channel which still joins it, and thin barriers between that channel and the sea"""
    while True:
        p = pars(rng)
        s = base(rng, p, closed=True, relic=.3)
        n = len(s['x'])
        x0 = s['x'].index(0.0)
        if n < 5:
            continue
        d = int(rng.choice([-1, 1]))
        edge = n - 2 if d > 0 else 1
        if abs(edge - x0) < 1:
            continue
        u = x0 + d * int(rng.integers(0, abs(edge - x0)))
        a, b = sorted((x0, u))
        for j in range(a, b + 1):       # lagoon all the way
            if s['y3'][j] - s['y4'][j] <= p['MinOutletWidth']:
                s['y4'][j] = s['y3'][j] - 2 * p['MinOutletWidth'] - 1
        lo = max(1, u - int(rng.integers(0, 3)))
        hi = min(n - 2, u + int(rng.integers(0, 4)))
        for j in range(lo, hi + 1):
            s['y2'][j] = max(s['y3'][j], s['y4'][j]) + float(rng.uniform(2, 6))
            s['y1'][j] = s['y2'][j] + p['MinOutletWidth'] * float(rng.choice([.9, 1.3, 2.], p=[.1, .4, .5]))
            s['y0'][j] = s['y1'][j] + (float(10 ** rng.uniform(-5, -2)) if rng.random() < .6 else float(rng.uniform(2, 20)))
            s['z1'][j] = float(rng.uniform(-2, 0))
            s['z2'][j] = s['z0'][j] - float(rng.uniform(0, .4))
        s['closed'] = True
        s['e'] = [s['x'][u], s['x'][u] if rng.random() < .5 else NAN]
        if valid(s, p) and layout(s, p)[2]:
            return p, s


def breach(rng, n):
    out = []
    while len(out) < n // 4:
        p, s = relic_breach(rng)
        i = inputs(rng, s, p, lstmag=.03, qmag=0., cstmag=0.)
        if rng.random() < .2:
            lev = float(np.quantile(s['z0'], rng.uniform(0, .4)) + rng.uniform(-.02, .3))
            i['lwl'] = [lev + float(rng.uniform(-.1, .1)) for _ in i['lwl']]
        out.append(dict(op='morph', fam='breach', s=s, p=p, i=i, t=fixed(i)))
    while len(out) < n:
        p = pars(rng)
        s = base(rng, p, thin=.2, relic=.5)
        u = rng.random()
        crowd(rng, s, p, ['barrier'] if u < .4 else ['barrier', 'sea', 'pinch', 'narrow'], .4)
        if not valid(s, p):
            continue
        i = inputs(rng, s, p, lstmag=.03 if rng.random() < .7 else 0., qmag=0. if rng.random() < .5 else .005, cstmag=0.)
        if rng.random() < .5:     # high water: over some of the barriers
            lev = float(np.quantile(s['z0'], rng.uniform(0, .4)) + rng.uniform(-.02, .3))
            i['lwl'] = [lev + float(rng.uniform(-.1, .1)) for _ in i['lwl']]
            if rng.random() < .3:
                i['od'] = [lev - s['z1'][j] + float(rng.uniform(-.1, .1)) if v == v else v for j, v in enumerate(i['od'])]
        out.append(dict(op='morph', fam='breach', s=s, p=p, i=i, t=fixed(i)))
    return out


def forcing(rng, m, p, c, rg, dt):
    """inputs of a morphological step for an assembled channel c, under the regime rg"""
    n = len(m['x'])
    nseg = len(c['b'])
    i = dict(on=c['on'], oix=[] if c['closed'] else c['oix'], fl=c['fl'], b=c['b'], closed=c['closed'], dt=dt)
    i['h'] = [float(v) for v in rng.uniform(.3, 3., nseg)]
    i['qs'] = [float(v) for v in rg['q'] * (1 + rg['qg'] * np.arange(nseg - 1) / nseg) * rng.uniform(.8, 1.2, nseg - 1)]
    i['lst'] = [float(v) for v in rg['l'] * rng.uniform(.7, 1.1, n - 1) * (1 + rg['lg'] * np.linspace(-1, 1, n - 1))]
    i['cst'] = [float(v) for v in rg['c'] * rng.uniform(0, 1, n)]
    ow = [float(rng.random() < rg['ow']) for _ in range(n)]
    for k in range(n):
        if np.isnan(m['y1'][k]) and m['y3'][k] <= m['y4'][k]:
            ow[k] = 0.
        elif m['y1'][k] <= m['y2'][k]:
            ow[k] = 1.
    i['ow'] = ow
    lev = rg['lev'] + float(rng.uniform(-.1, .1))
    i['lwl'] = [lev] * n
    i['od'] = [max(lev - m['z1'][k], .2) if k in i['oix'] else NAN for k in range(n)]
    return i


def history(rng, n, K, steps=0):
    out = []
    while len(out) < n:
        p = pars(rng)
        p['Dx'] = float(rng.choice([5., 8., 10.]))
        s = base(rng, p, wide=bool(rng.random() < .6), relic=float(rng.choice([.2, .6])), offtransect=0.)   # ends of outlets start on transects
        if rng.random() < .4:
            crowd(rng, s, p, ['sea', 'lagoon', 'barrier', 'cliff'], .3, gap=1.)
        if not valid(s, p):
            continue
        mag = float(10 ** rng.uniform(-3, -.5))
        rg = dict(q=mag * float(rng.choice([.1, 1])), qg=float(rng.uniform(-.9, 2)), l=mag * float(rng.choice([-1, 1, .3, -.3])),
                  lg=float(rng.choice([0, .5, -.5, 2, -2])), c=mag * float(rng.choice([0, 1e-2, 5e-2])), ow=float(rng.choice([0., .5, 1.])),
                  lev=float(rng.choice([.5, 1.5, 2.5, 4.], p=[.4, .3, .2, .1])))
        out.append(dict(op='history', s=s, p=p, k=K, steps=steps, seed=int(rng.integers(1 << 30)), regime=rg, dt=60.,
                        t=dict(lo=60., hi=float(rng.choice([60., 240.])), maxchg=float(rng.choice([.25, .5, 1.])))))
    return out


def mirror(rng, n):
    """states without ties between left and right"""
    out = []
    while len(out) < n:
        p = pars(rng)
        what = str(rng.choice(['assemble', 'morph', 'morph', 'coast']))
        if what == 'coast':
            out.append(dict(op='mirror', what=what, s=gen.state(rng, p, hyd=False), p=p, w=waves(rng)))
            continue
        if what == 'assemble':
            s = gen.state(rng, p, exact=False)
        else:
            s = base(rng, p, exact=False, wide=bool(rng.random() < .7), relic=.6, thin=.3)
            crowd(rng, s, p, ['sea', 'fill', 'lagoon', 'cliff', 'barrier'], .5)
            if not valid(s, p):
                continue
        e0, e1 = s['e']
        if not e0 == e0 or e0 == 0 or e0 == e1 or e1 in s['x'] or abs(e0 - e1) < 1:
            continue
        if what == 'assemble':
            out.append(dict(op='mirror', what=what, s=s, p=p))
        else:
            i = inputs(rng, s, p, lstmag=.03, qmag=.02, cstmag=1e-4)
            if rng.random() < .15:
                landed(rng, s, p, i)
                if rng.random() < .5:
                    p['OutletBankEroFac'] = 0.
            out.append(dict(op='mirror', what=what, s=s, p=p, i=i, t=fixed(i)))
    return out


def waves(rng):
    hs = float(rng.choice([.5, 1., 2., 4.]) * rng.uniform(.8, 1.2))
    T = float(rng.uniform(4, 12))
    return dict(hs=hs, period=T, length=float(rng.uniform(30, 110)), power=float(rng.choice([0., 500., 5e3, 2e4]) * rng.uniform(.7, 1.3)),
                dir=float(rng.choice([rng.uniform(-1.2, 1.2), rng.uniform(-np.pi, np.pi), 0.])), sea=float(rng.uniform(-1.5, 3)))


def coast_lst(rng, n):
    out = []
    for _ in range(n):
        p = pars(rng)
        s = gen.state(rng, p, hyd=False)
        if rng.random() < .7:    # a shore like real ones
            m = len(s['x'])
            g = np.cumsum(rng.uniform(-1, 1, m)) * float(rng.choice([.02, .3, 2.])) * p['Dx']
            s['y0'] = [float(v) for v in g]
        out.append(dict(op='lst', s=s, p=p, w=waves(rng)))
    return out


def coast_ot(rng, n):
    out = []
    for _ in range(n):
        p = pars(rng)
        s = gen.state(rng, p, hyd=False, thin=.6, relic=.6)
        if rng.random() < .5:     # crests around the width-height line
            for j in range(len(s['x'])):
                w = s['y0'][j] - (s['y1'][j] if s['y1'][j] == s['y1'][j] else s['y3'][j])
                s['z0'][j] = w * p['BarRatSlope'] + p['BarRatInt'] + float(rng.uniform(-.05, .05))
        if rng.random() < .1:
            j = int(rng.integers(0, len(s['x'])))
            if s['y1'][j] != s['y1'][j]:
                s['y0'][j] = s['y3'][j] - float(rng.uniform(0, .01))
        out.append(dict(op='overtop', s=s, p=p, w=waves(rng)))
    return out


def em_morph(em, fam, tier):
    out = []
    for s in em.get('Morph', []):
        i = dict(s['i'], oix=list(s['i']['oix']))
        out.append(dict(op='morph', fam=fam, s=s['s'], p=mcpars(s['p']), i=i, t=dict(lo=60., hi=60., maxchg=.25)))
    return out[:q(tier, 300, 3000)]


def mcpars(p):
    r = np.random.default_rng(0)
    d = gen.params(r)
    d.update({k: float(v) for k, v in p.items()})
    gen.finish(d)
    return d


def both(fam, f, a, b):
    return dict(gen=lambda r, t, em: em_morph(em, fam, t) + f(r, q(t, a, b)), module='TrMorph')


SUITES = dict(
    rates=both('rates', rates, 700, 10000),
    adapt=dict(gen=lambda r, t, em: adapt(r, q(t, 900, 12000)) + history(r, q(t, 100, 1500), 30, 4), module='TrMorph'),
    mouth=both('mouth', mouth, 800, 12000),
    conflict=both('conflict', conflict, 800, 12000),
    breach=both('breach', breach, 800, 12000),
    histories=dict(gen=lambda r, t, em: history(r, q(t, 600, 6000), 50, 3) + history(r, q(t, 10, 300), 400), module='TrMorph'),
    steps=dict(gen=lambda r, t, em: rates(r, q(t, 100, 1500)) + mouth(r, q(t, 200, 3000)) + conflict(r, q(t, 200, 3000))
               + breach(r, q(t, 200, 3000)) + history(r, q(t, 150, 2000), 40, 6), module='TrMorph'),
    mirrored=dict(gen=lambda r, t, em: mirror(r, q(t, 1200, 15000)), module='TrMorph'),
    longshore=dict(gen=lambda r, t, em: coast_lst(r, q(t, 1500, 20000)), module='TrCoast'),
    overtop=dict(gen=lambda r, t, em: coast_ot(r, q(t, 1500, 20000)), module='TrCoast'),
)


def mc_morph(thin):
    def cfg(tier, seed):
        return ('SPECIFICATION Spec\nCONSTANTS Every = %d Seed = %d Thin = %d\nINVARIANTS %s\nCONSTRAINT Keep\nCHECK_DEADLOCK FALSE\n'
                % (q(tier, 40, 100), seed, q(tier, thin, 3), ' '.join(MC['Morph']['invariants'])))
    return cfg


MC = dict(
    Morph=dict(name='Morph', module='MC_Morph', cfg=mc_morph(149), emit=True, leaves=True, timeout=850,
               nonvacuous=['none', 'spill', 'erosion', 'filled', 'extend', 'intolagoon', 'intosea', 'mend'],
               invariants=['RiverBudget', 'ShoreBudget', 'CrossShoreBudget', 'StepBounds', 'AllOrdered', 'MouthInside', 'ChannelLeft',
                           'RiverMouth', 'BreachSound', 'Reached', 'Mirrored']),
    Coast=dict(name='Coast', module='MC_Coast', cfg=lambda tier, seed: 'SPECIFICATION Spec\nCONSTANT N = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
               % (q(tier, 3, 4), ' '.join(MC['Coast']['invariants'])),
               invariants=['WithTheWaves', 'NoneOffshore', 'StraightShore', 'Powered', 'Mirrored', 'DrySafe', 'HigherMore', 'FillNarrow',
                           'NothingBehind'],
               nonvacuous=['offshore', 'waves', 'overwash', 'ontop']))
PROPS = dict(
    T02=dict(slug='adaptive-step', mc=['Morph'], suites=['adapt']),
    C01=dict(slug='longshore-transport', mc=['Coast'], suites=['longshore']),
    C02=dict(slug='overtopping', mc=['Coast'], suites=['overtop']),
    M01=dict(slug='sediment-rates', mc=['Morph'], suites=['rates', 'steps']),
    M02=dict(slug='mirror-symmetry', mc=['Morph', 'Coast'], suites=['mirrored']),
    M03=dict(slug='profile-order', mc=['Morph'], suites=['histories']),
    M04=dict(slug='conflict-resolution', mc=['Morph'], suites=['conflict', 'steps']),
    M05=dict(slug='outlet-migration', mc=['Morph'], suites=['mouth', 'steps']),
    M06=dict(slug='barrier-breach', mc=['Morph'], suites=['breach', 'steps']),
)
