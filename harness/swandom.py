"""Scenarios for the conversion of SWAN output."""
import numpy as np
from outdom import q

NORM = 128


def length(T, d):
    """the length of waves of this period in this depth"""
    g, k = 9.81, (2 * np.pi / T)**2 / 9.81
    for _ in range(60):
        k = ((2 * np.pi / T)**2 / g / np.tanh(k * d) + k) / 2
    return float(2 * np.pi / k)


def series(rng, n):
    dt = float(rng.choice([600, 1800, 3600, 3 * 3600, 60, 86400, 1200]))
    t = 60. * float(rng.integers(-10 ** 5, 4 * 10 ** 6))
    out = []
    for _ in range(n):
        out.append(t)
        t += dt * float(rng.choice([1, 1, 1, 2]))
    return out


def row(rng, t, given=None):
    T = float(rng.uniform(2, 18))
    d = float(rng.choice([10., 10.3, rng.uniform(3, 80)]))
    ang = float(rng.choice([0., rng.uniform(-180, 180), rng.uniform(-60, 60)]))
    r = dict(hs=float(rng.uniform(0, 7)), per=T, dir=(NORM - ang) % 360, len=length(T, d), depth=d)
    r.update(given or {})
    to = np.deg2rad(r['dir'] + 180 + rng.uniform(-20, 20))
    P = float(rng.choice([0., rng.uniform(0, 80), rng.uniform(0, 5)])) if rng.random() < .2 else float(rng.uniform(0, 80))
    x, y = float(np.sin(to)), float(np.cos(to))
    if rng.random() < .15:                     # exactly along an axis, or diagonal
        x, y = [(0., 1.), (0., -1.), (1., 0.), (-1., 0.), (1., 1.), (-1., 1.)][int(rng.integers(0, 6))]
    r.update(t=t, xt=P * x, yt=P * y)
    return {k: float(v) for k, v in r.items()}


def gen(rng, tier, em):
    out = []
    es = list(em.get('Swan', []))
    rng.shuffle(es)
    es = es[:q(tier, 300, 3000)]
    for i in range(0, len(es) - 1, 10):
        part = es[i:i + 10]
        ts = series(rng, len(part))
        out.append(dict(op='swan', rows=[row(rng, t, {k: float(v) for k, v in e.items()} | dict(dir=float(e['dir']) % 360)) for t, e in zip(ts, part)], limit=60))
    for _ in range(q(tier, 150, 1500)):
        ts = series(rng, int(rng.integers(2, 24)))
        out.append(dict(op='swan', rows=[row(rng, t) for t in ts], limit=60))
    return [s for s in out if len(s['rows']) > 1]


def mc_swan(tier, seed):
    kd = q(tier, '{5, 2, 1, 1/2, 1/4, 1/8}', '{8, 5, 3, 2, 3/2, 1, 3/4, 1/2, 3/8, 1/4, 3/16, 1/8, 1/16}')
    return ('SPECIFICATION Spec\nCONSTANTS\n KDs <- KDs_%s\n Angles <- Angles_%s\n Periods = %s\n Norm = %d\n Seed = %d\nINVARIANTS %s\nVIEW View\nCHECK_DEADLOCK FALSE\n'
            % (tier, tier, q(tier, '{4, 9, 15}', '{2, 4, 6, 9, 12, 15, 20}'), NORM, seed, ' '.join(SWAN['invariants'])))


SWAN = dict(name='Swan', module='MC_Swan', cfg=mc_swan, emit=True, nonvacuous=['deep', 'between', 'shallow'],
            invariants=['LooksBack', 'AngleBack', 'Refracts', 'NothingBack', 'SeaIsSea', 'FromWhere', 'Emitted'])
MC = dict(Swan=SWAN)
SUITES = dict(swan=dict(gen=gen, module='TrSwan'))
PROPS = dict(L09=dict(slug='swan', mc=['Swan'], suites=['swan']))
