"""Scenarios for the hydraulic properties."""
import numpy as np
import gen


def q(tier, a, b):
    return a if tier == 'quick' else b


def channel(rng, n=None, storage=True, wide=True, smooth=False, closed=False):
    n = n or int(rng.integers(3, 14))
    dx = float(rng.choice([10., 20., 25., 50.]))
    dxs = [dx] * (n - 1)
    if rng.random() < .5 and n > 3:
        dxs[-2 if rng.random() < .5 else -1] += float(rng.random() * dx)
    slope = float(rng.choice([0.0, 0.0005, 0.001, 0.003] if smooth else [0., 0.001, 0.003, 0.01]))
    z = [slope * sum(dxs[i:]) - 2.0 + (0 if smooth else float(rng.uniform(-.3, .3))) for i in range(n)]
    b = [float(rng.uniform(40, 100)) if smooth else float(rng.choice([10., 25., 40., 70., 120.]) * rng.uniform(.8, 1.2))
         for _ in range(n)]
    if smooth:
        b0 = float(rng.uniform(30, 90))
        b = [b0 * float(rng.uniform(.9, 1.1)) for _ in b]
    la, ll = [0.] * n, [0.] * n
    if storage:
        i = int(rng.integers(0, n))
        j = int(rng.integers(i, n)) if closed else int(rng.integers(min(i, n - 2), n - 1))   # never at the sea
        i = min(i, j)
        for k in range(i, j + 1):
            ll[k] = dx
        if rng.random() < .8:
            la[i] += float(rng.uniform(100, 20000))
            ll[i] += dx * int(rng.integers(0, 5))
        if rng.random() < .8:
            la[j] += float(rng.uniform(100, 20000))
            ll[j] += dx * int(rng.integers(0, 5))
    return dict(dx=dxs, z=z, b=b, la=la, ll=ll, closed=closed)


def steady(rng, n):
    out = []
    for _ in range(n):
        c = channel(rng, storage=False)
        out.append(dict(op='steady', c=c, n=float(rng.choice([0.025, 0.03, 0.04])), q=float(rng.choice([5., 30., 60., 150., 400.]) * rng.uniform(.7, 1.3)),
                        ds=float(rng.uniform(-2.5, 1.5)), beta=float(rng.choice([1.0, 1.05, 1.1])),
                        tol=float(rng.choice([1e-3, 1e-4, 1e-6, 1e-8])), maxit=int(rng.choice([10, 20, 30])), arr=bool(rng.random() < .5)))
    return out


def uniform_state(c, q0, ds, n):
    """a plausible start: level pool backing up a rising bed, discharge q0"""
    h, lev = [], ds
    for i in range(len(c['z']) - 1, -1, -1):
        hc = (q0 ** 2 / (c['b'][i] ** 2 * 9.81)) ** (1 / 3)
        d = max(lev - c['z'][i], 1.3 * hc, 0.3)
        lev = c['z'][i] + d + .002
        h.insert(0, d)
    v = [q0 / (c['b'][i] * h[i]) for i in range(len(h))]
    return h, v


def unsteady(rng, n, kinds=('gentle', 'gentle', 'wild', 'closed', 'still', 'shock')):
    out = []
    for _ in range(n):
        kind = str(rng.choice(kinds))
        closed = kind == 'closed' or kind in ('shock', 'still') and rng.random() < .3
        c = channel(rng, smooth=kind != 'wild', closed=closed)
        man = float(rng.choice([0.03, 0.04]))
        q0 = float(rng.uniform(20, 120) if kind not in ('gentle', 'closed') else rng.uniform(10, 60))
        ds = float(rng.uniform(-.5, 1.0)) if kind != 'still' else float(c['z'][0] + rng.uniform(.5, 1.5))
        h, v = uniform_state(c, q0, ds, man)
        K = int(rng.integers(2, 6))
        dt = float(rng.choice([5., 10., 20., 30.]))
        if closed:
            m = len(v)
            v = [vi * (1 - (i / (m - 1))) for i, vi in enumerate(v)]
            v[-1] = 1e-4
        s = dict(op='unsteady', c=c, n=man, g=9.81 if rng.random() < .8 else 9.7, perm=float(rng.choice([0., 0.0005, 0.002, 0.01])),
                 theta=float(rng.choice([0.6, 0.7, 0.8, 1.0])), beta=float(rng.choice([1.0, 1.05])), dt=dt,
                 maxit=400, vmin=1e-4, kind=kind)
        dsl = ds + np.cumsum(rng.uniform(-.02, .02, K))
        qs = q0 * (1 + np.cumsum(rng.uniform(-.05, .05, K)))
        if kind == 'wild':
            h = [float(x * rng.uniform(.5, 1.8)) for x in h]
            v = [float(x * rng.uniform(-1., 1.5)) for x in v]
            dsl = ds + np.cumsum(rng.uniform(-.3, .3, K))
            qs = q0 * np.exp(np.cumsum(rng.uniform(-.7, .7, K)))
        elif rng.random() < .5:
            h = [float(x * rng.uniform(.98, 1.02)) for x in h[:-1]] + h[-1:]
        s.update(h0=[float(x) for x in h], v0=[float(x) for x in v], q=[float(x) for x in qs], ds=[float(x) for x in dsl])
        if kind == 'gentle':
            s.update(tol=1e-9, slack=1e-7, expect='unsteady')
        elif kind == 'closed':
            s.update(tol=1e-9, slack=1e-7, expect='unsteady')
        elif kind == 'still':    # not converged in the iterations allowed; no discharge: the steady state is a pool
            s.update(tol=1e-12, slack=1e-6, expect='steady', maxit=2, q=[0.], ds=s['ds'][:1])
            s['h0'] = [x * float(rng.uniform(.8, 1.2)) for x in h]
        elif kind == 'shock':    # hardly ever converged in the iterations allowed, the steady state is
            f = float(rng.choice([.2, 3.]))
            s.update(tol=1e-5, slack=1e-4, expect='either', maxit=3, q=[float(x * f) for x in qs])
        else:
            s.update(tol=1e-9, slack=1e-6, expect='either', maxit=int(rng.choice([2, 5, 30])))
        out.append(s)
    return out


def bedload(rng, n):
    out = []
    for _ in range(n):
        p = gen.params(rng)
        m = int(rng.integers(2, 12))
        v = rng.uniform(-2.5, 3.5, m)
        if rng.random() < .2:
            v[:] = v * .2
        out.append(dict(op='bedload', p=p, psi=float(rng.choice([0., .25, .4, .5])), b=[float(x) for x in rng.uniform(5, 120, m)],
                        h=[float(x) for x in rng.uniform(.2, 4, m)], v=[float(x) for x in v]))
    return out


SUITES = dict(
    steady=dict(gen=lambda r, t, em: [dict(op='steady', **s) for s in em.get('Hydraulics', [])] + steady(r, q(t, 500, 8000)),
                module='TrHyd'),
    unsteady=dict(gen=lambda r, t, em: unsteady(r, q(t, 500, 9000)), module='TrHyd'),
    water=dict(gen=lambda r, t, em: unsteady(r, q(t, 400, 7000), kinds=('gentle', 'closed', 'closed', 'shock')), module='TrHyd'),
    bedload=dict(gen=lambda r, t, em: bedload(r, q(t, 400, 6000)), module='TrHyd'),
)


def mc_hyd(tier, seed):
    return ('SPECIFICATION Spec\nCONSTANTS N = %d Every = %d Seed = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
            % (q(tier, 3, 4), q(tier, 25, 60), seed, ' '.join(MC['Hydraulics']['invariants'])))


MC = dict(Hydraulics=dict(name='Hydraulics', module='MC_Hydraulics', cfg=mc_hyd, emit=True,
                          nonvacuous=['pool', 'flow', 'critical', 'threshold'],
                          invariants=['ProfileJudged', 'Subcritical', 'Telescopes', 'PoolRests', 'SeaPull', 'BedloadSigned',
                                      'BedloadGrows']))
PROPS = dict(
    H05=dict(slug='steady-profile', mc=['Hydraulics'], suites=['steady']),
    H06=dict(slug='unsteady-solution', mc=['Hydraulics'], suites=['unsteady']),
    H07=dict(slug='water-balance', mc=['Hydraulics'], suites=['water']),
    H08=dict(slug='bedload', mc=['Hydraulics'], suites=['bedload', 'storebed']),
)
