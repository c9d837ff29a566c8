"""Scenarios for pictures and films."""
import numpy as np
import gen, model
from outdom import q, some

NAN = float('nan')


def oix(s):
    e0, e1 = s['e']
    if s['closed'] or e0 != e0 or e1 != e1:
        return []
    lo, hi = min(e0, e1), max(e0, e1)
    k = [i for i, x in enumerate(s['x']) if lo <= x <= hi]
    return k if e0 < e1 else k[::-1]


def state(rng, p, like=None, exact=None, **kw):
    for _ in range(400):
        s = gen.state(rng, p, exact=exact, closed=bool(rng.random() < .25), wide=bool(rng.random() < .5), nmax=5 if like else 8, **kw)
        if like is None or s['x'] == like['x']:
            break
    else:
        s = {k: (list(v) if isinstance(v, list) else v) for k, v in like.items()}
    if not s['closed'] and rng.random() < .2:      # an outlet straight out between two transects
        k = int(rng.integers(0, len(s['x']) - 1))
        a = s['x'][k]
        s['e'] = [a + p['Dx'] * float(f) for f in rng.choice([.25, .375, .5, .75], 2)]
    s['oix'] = oix(s)
    for i in s['oix']:                             # a channel wherever the outlet is
        if s['y1'][i] != s['y1'][i]:
            s['y2'][i], s['y1'][i] = s['y3'][i] + 2., s['y3'][i] + 8.
            s['z1'][i], s['z2'][i] = -.5, 3.
            s['y0'][i] = max(s['y0'][i], s['y1'][i] + 4.)
    return s


def slim(s):
    return {k: s[k] for k in ('x', 'y0', 'y1', 'y2', 'y3', 'y4', 'z0', 'z1', 'z2', 'z3', 'e', 'ew', 'closed', 'oix')}


def times(rng):
    return float(rng.choice([-1, rng.integers(0, 10 ** 8), 60 * rng.integers(0, 10 ** 6)]))


def plans(rng, n):
    out = []
    for _ in range(n):
        p = gen.params(rng)
        a = state(rng, p)
        while len(a['x']) > 11:
            a = state(rng, p)
        b = state(rng, p, like=a)
        m = len(a['x'])
        full = bool(rng.random() < .5)
        w = lambda: dict(full=full, time=times(rng), power=float(rng.choice([0, 5, 2e4, rng.uniform(1, 5e4)])), dir=float(rng.choice([0., .3, -1.2, 2., -3., rng.uniform(-np.pi, np.pi)])),
                         lst=some(rng, m - 1, -.5, .5), cst=some(rng, m, 0, 1e-2))
        out.append(dict(op='plan', s=slim(a), t=slim(b), w=w(), w2=w(), D=dict(rw=float(rng.choice([p['RiverWidth'], 2 * p['Dx'], 30.])), sw=p['SpitWidth']), limit=60))
    return out


def em_plans(rng, em, tier):
    out = []
    for k, e in enumerate(em.get('Picture', [])):
        if 'closed' not in e:
            continue
        s = {k: e[k] for k in ('y0', 'y1', 'y2', 'y3', 'y4')}
        n = len(s['y0'])
        fl = lambda v: [NAN if x is None or x == 'NaN' else float(x) for x in v]
        s = {k: fl(v) for k, v in s.items()}
        s.update(x=fl(e['x']), e=fl(e['e']), ew=float(e['ew']), closed=bool(e['closed']), oix=[int(i) for i in e['oix']], z0=some(rng, n, 2, 5), z1=some(rng, n, -2, 0), z2=some(rng, n, 2, 5), z3=some(rng, n, -2, 0))
        out.append(s)
    rng.shuffle(out)
    out = out[:q(tier, 240, 2000)]
    w = dict(full=False, time=-1., power=0., dir=0., lst=[], cst=[])
    return [dict(op='plan', s=a, t=b, w=w, w2=w, D=dict(rw=12., sw=4.), limit=60) for a, b in zip(out, out[1:] + out[:1]) if len(a['x']) == len(b['x'])]


def longs(rng, n):
    out = []
    for _ in range(n):
        bed = bool(rng.random() < .6)
        def c():
            m = int(rng.integers(2, 30))
            return dict(dx=some(rng, m - 1, .1, 60), z=some(rng, m, -4, 9), b=some(rng, m, 1, 90), h=some(rng, m, .05, 5), v=some(rng, m, -2, 4), qs=some(rng, m - 1, -.01, .3), time=times(rng))
        out.append(dict(op='long', bed=bed, c=c(), d=c(), limit=60))
    return out


def across(rng, n):
    out = []
    for _ in range(n):
        p = gen.params(rng)
        a = state(rng, p)
        while len(a['x']) > 11:
            a = state(rng, p)
        b = state(rng, p, like=a)
        m, x = len(a['x']), a['x']
        at = float(rng.choice([0., x[0], x[-1], rng.uniform(x[0], x[-1]), rng.uniform(x[0], x[-1]), rng.uniform(x[0], x[-1]), x[int(rng.integers(0, m))], x[0] - 1., x[-1] + .01]))
        w = lambda: dict(lwl=some(rng, m, 0, 3), owl=some(rng, m, 0, 2, .3), sea=float(rng.uniform(-2, 2)), time=times(rng))
        out.append(dict(op='across', s=slim(a), t=slim(b), w=w(), w2=w(), at=at, P={k: p[k] for k in ('BeachSlope', 'BackshoreElev', 'ClosureDepth', 'BeachTopElev')}, limit=60))
    return out


def curves(rng, n):
    out = []
    for _ in range(n):
        def b():
            m = int(rng.integers(2, 12))
            t = np.cumsum(rng.integers(1, 9999, m)).tolist()
            return dict(t=[float(v) for v in t], qin=some(rng, m, 0, 900), qout=some(rng, m, -9, 900), sea=some(rng, m, -2, 2))
        out.append(dict(op='curves', b=b(), d=b(), limit=60))
    return out


def maps(rng, n):
    out = []
    for _ in range(n):
        s = state(rng, gen.params(rng))
        out.append(dict(op='map', s=slim(s), o=some(rng, 2, -2e6, 6e6) if rng.random() < .6 else [0., 0.], norm=float(rng.choice([0., np.pi / 2, rng.uniform(-np.pi, np.pi)])), limit=60))
    return out


# -------------------------------------------------------------------- films
def film(rng, n, first=0, end=-1, step=1, kind=None, given=None):
    p = gen.params(rng, RiverWidth=40.)
    a = state(rng, p, exact=True)
    while len(a['x']) > 11:
        a = state(rng, p, exact=True)
    ss = [a] + [state(rng, p, like=a, exact=True) for _ in range(n - 1)]
    nr = len(a['rz'])
    x = a['x']
    h = dict(name='film', start=float(rng.integers(0, 10 ** 6)), x=x, dx=p['Dx'], rz=a['rz'], origin=some(rng, 2, -2e6, 2e6), norm=0., phys={k: float(p.get(k, 1.)) for k in model.DEFAULT['PhysicalParameters']})
    t, recs, m = h['start'], [], len(x)
    for s in ss:
        Y = np.column_stack([s['y%d' % k] for k in range(5)])
        Z = np.column_stack([s['z%d' % k] for k in range(4)])
        rz = (s['rz'] + s['rz'] * nr)[:nr]
        two = lambda v: [float(v[0]), float(v[-1])]
        recs.append(dict(t=t, sea=float(rng.uniform(-1, 1)), flow=float(rng.uniform(0, 300)), hs=1., dir=.1, Y=Y.ravel().tolist(), Z=Z.ravel().tolist(), lwl=s['lwl'], lvl=s['lvl'], lbed=[0.] * m, od=s['od'],
                         ov=s['ov'], obed=[0.] * m, lst=[0.] * (m - 1), cst=[0.] * m, ow=[0.] * m, rz=rz, rd=(s['rd'] * nr)[:nr], rv=(s['rv'] * nr)[:nr], rbed=[0.] * nr, e=s['e'], ew=s['ew'], ee=s['ee'],
                         oed=two(s['oed']), oev=two(s['oev']), oebed=0., closed=s['closed']))
        t += float(rng.choice([60, 900, 86400, 3600 * 5, 90.]))
    kind = kind or str(rng.choice(['plan', 'plan', 'long', 'across']))
    given = given or {k: bool(rng.random() < .7) for k in ('first', 'end', 'step', 'fps')}
    first, end, step = first if given['first'] else 0, end if given['end'] else -1, step if given['step'] else 1
    if end == -1:
        given['end'] = False
    return dict(op='film', h=h, recs=recs, first=first, end=end, step=step, fps=float(rng.choice([1., 5., 12.5, 25.])) if given['fps'] else 5., given=given, kind=kind,
                at=float(rng.choice([0., x[0], x[-1], rng.uniform(x[0], x[-1])])), both=bool(kind == 'across' and rng.random() < .3), cli=bool(rng.random() < .3), film=str(rng.choice(['a.mp4', 'b c.gif', 'f.avi'])),
                area=[-50., 50., -40., 60.] if rng.random() < .2 else [], limit=120)


def films(rng, tier, em):
    out = []
    es = [e for e in em.get('Picture', []) if 'n' in e]
    rng.shuffle(es)
    for e in es[:q(tier, 60, 500)]:
        out.append(film(rng, int(e['n']), int(e['first']), int(e['end']), int(e['step']), given=dict(first=e['first'] != 0 or bool(rng.random() < .5), end=e['end'] != -1, step=e['step'] != 1, fps=bool(rng.random() < .5))))
    for _ in range(q(tier, 60, 600)):
        n = int(rng.integers(1, 9))
        out.append(film(rng, n, int(rng.integers(0, n)), int(rng.choice([-1, n, n + 3, int(rng.integers(1, n + 1))])), int(rng.integers(1, 4))))
    return out


def mc_picture(tier, seed):
    return 'SPECIFICATION Spec\nCONSTANTS N = %d Every = %d Seed = %d Depth = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (q(tier, 4, 5), q(tier, 17, 31), seed, q(tier, 5, 8), ' '.join(PICTURE['invariants']))


PICTURE = dict(name='Picture', module='MC_Picture', cfg=mc_picture, emit=True, nonvacuous=['right', 'left', 'straight', 'closed', 'film'],
               invariants=['ShoreShown', 'BanksMeet', 'Apart', 'Mirrored', 'FramesInOrder', 'FramesWithin', 'Emitted'])
MC = dict(Picture=PICTURE)
SUITES = dict(
    pictures=dict(gen=lambda r, t, em: em_plans(r, em, t) + plans(r, q(t, 240, 4000)) + longs(r, q(t, 120, 1500)) + across(r, q(t, 200, 3000)) + curves(r, q(t, 40, 400)) + maps(r, q(t, 60, 800)), module='TrPicture'),
    films=dict(gen=films, module='TrPicture'),
)
PROPS = dict(
    V01=dict(slug='pictures', mc=['Picture'], suites=['pictures']),
    V02=dict(slug='animation', mc=['Picture'], suites=['films']),
)
