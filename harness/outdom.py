"""Scenarios for output files, files that exist, and hot starts."""
import numpy as np
import corerun, model


def q(tier, a, b):
    return a if tier == 'quick' else b


def some(rng, n, a=-5, b=20, nan=0.):
    v = rng.uniform(a, b, n)
    v[rng.random(n) < nan] = np.nan
    return [float(x) for x in v]


def header(rng, n=None, nr=None, dx=None):
    n = n or int(rng.integers(3, 9))
    dx = dx or float(rng.choice([5., 10., 20., 2.5]))
    k = int(rng.integers(0, n))
    return dict(name=str(rng.choice(['hapua', 'a b', 'x_1'])), start=float(rng.integers(0, 3 * 86400)), x=[(i - k) * dx for i in range(n)], dx=dx,
                rz=some(rng, nr or int(rng.integers(1, 7))), origin=some(rng, 2, -2e6, 2e6), norm=float(rng.uniform(-np.pi, np.pi)),
                phys={k: float(rng.uniform(0, 3000)) for k in model.DEFAULT['PhysicalParameters']})


def when(rng, t):
    """later than t: whole seconds mostly"""
    d = float(rng.choice([15, 60, 900, 1, 86400, 40 * 86400])) * float(rng.integers(1, 4))
    return t + (d if rng.random() < .8 else round(d * rng.uniform(.01, 1), 3))


def snapshot(rng, h, t, hot=False):
    n, nr = len(h['x']), len(h['rz'])
    wet = np.nan if not hot else .3
    Y = np.sort(rng.uniform(-100, 50, (n, 5)), axis=1)[:, ::-1]
    Z = rng.uniform(-3, 6, (n, 4))
    no = rng.random(n) < .5
    Y[no, 1:3] = np.nan
    Z[no, 1:3] = np.nan
    f = lambda M: [float(v) for v in M.ravel()]
    xs = h['x']
    e = [float(rng.uniform(xs[0] - 5, xs[-1] + 5)) for _ in range(2)]
    kind = rng.random()
    if kind < .15:
        e = [np.nan, np.nan]
    elif kind < .3:
        e[0] = e[1] = float(rng.choice(xs))
    elif kind < .5:
        e[0] = float(rng.choice(xs))
    z = lambda m, a=-5, b=20, nan=.3: some(rng, m, a, b, nan)
    lvl = z(n, -2, 3)
    if hot:
        lvl[int(rng.integers(0, n))] = float(rng.uniform(.1, 2))
    return dict(t=t, sea=float(rng.uniform(-2, 2)), flow=float(rng.uniform(0, 900)), hs=float(rng.uniform(0, 9)), dir=float(rng.uniform(-3.1, 3.1)), Y=f(Y), Z=f(Z),
                lwl=z(n), lvl=lvl, lbed=z(n), od=z(n, 0, 5), ov=z(n, -2, 4), obed=z(n), lst=some(rng, n - 1, -.5, .5), cst=some(rng, n, 0, 1e-2), ow=[float(v) for v in rng.integers(0, 2, n)],
                rz=some(rng, nr, -1, 9), rd=some(rng, nr, .1, 4), rv=some(rng, nr, -1, 4), rbed=some(rng, nr, 0, 1), e=e, ew=float(rng.uniform(1, 80)), ee=float(rng.uniform(-4, 3)),
                oed=z(2, 0, 5, .2), oev=z(2, -2, 4, .2), oebed=float(rng.uniform(-1, 2)), closed=bool(rng.random() < .3))


def line(rng, t):
    return dict(t=t, sea=float(rng.uniform(-2, 2)), flow=float(rng.uniform(0, 900)), hs=float(rng.uniform(0, 9)), dir=float(rng.uniform(-3.1, 3.1)), wl=float(rng.uniform(-2, 6)),
                outflow=float(rng.uniform(-100, 900)), sedin=float(rng.uniform(0, 1)), e=some(rng, 2, -500, 500, .1), closed=bool(rng.random() < .3), dt=float(rng.choice([15., 7.5, 960., .25])))


def sequence(rng, ops, kinds=None):
    """an emitted sequence of operations with files of random kinds and records of random contents"""
    kinds = kinds or {f: str(rng.choice(['full', 'full', 'ts'])) for f in 'ab'}
    ops = [dict(o) for o in ops]
    h, t, ts = {}, {}, {}
    for o in ops:
        f = o.get('f')
        if o['op'] == 'new':
            o['h'] = header(rng)
            was = f in h
            if not was or o['ow'] or o['ans'] in ('Y', 'y', 'Yes', 'yes', 'YES'):
                h[f], t[f], ts[f] = o['h'], o['h']['start'], []
        elif o['op'] == 'write':
            o['r'] = snapshot(rng, h[f], t[f]) if kinds[f] == 'full' else line(rng, t[f])
            ts[f].append(t[f])
            t[f] = when(rng, t[f])
        elif o['op'] == 'read':
            o['at'] = asked(rng, ts[f])
    return dict(op='outseq', kinds=kinds, ops=ops, limit=60)


def asked(rng, ts):
    out = [float(round(rng.uniform(ts[0] - 60, ts[-1] + 60)))]
    if len(ts) > 1:
        k = int(rng.integers(0, len(ts) - 1))
        out += [(ts[k] + ts[k + 1]) / 2, ts[k + 1]]
    return out


def long_sequences(rng, n):
    """more records, more questions"""
    out = []
    for _ in range(n):
        ops, there = [], {}
        for _ in range(int(rng.integers(6, 14))):
            f = str(rng.choice(['a', 'b']))
            r = rng.random()
            if f not in there or r < .15:
                ow = bool(rng.random() < .3)
                ans = str(rng.choice(['Y', 'y', 'Yes', 'yes', 'YES', 'n', 'N', 'no', '', 'yep', 'y ', 'eof', 'yEs', '1', 'true']))
                ops.append(dict(op='new', f=f, ow=ow, ans=ans))
                if f not in there or ow or ans in ('Y', 'y', 'Yes', 'yes', 'YES'):
                    there[f] = 0
            elif r < .25 and there[f]:
                ops.append(dict(op='read', f=f))
            elif r < .32:
                ops.append(dict(op='kill'))
            else:
                ops.append(dict(op='write', f=f))
                there[f] += 1
        out.append(sequence(rng, ops))
    return out


def em_output(rng, em, tier):
    out = [sequence(rng, e['ops']) for e in em.get('Output', [])]
    rng.shuffle(out)
    return out[:q(tier, 420, 3000)]


PRE = ['', '', 'text', 'results']
WORDS = ['y', 'Y', 'yes', 'Yes', 'YES', 'n', 'no', '', 'yy', 'ja', 'eof', 'y.']


def mains(rng, n):
    out = []
    for s in corerun.scripted(rng, n):
        pre = dict(out=str(rng.choice(PRE)), ts=str(rng.choice(PRE)))
        ans = [str(rng.choice(WORDS[:5] if rng.random() < .6 else WORDS[5:])) for _ in range(2)] + ['n']
        end = str(rng.choice(['runs', 'runs', 'killed', 'raises']))
        s['steps'] = [dict(x, fail=False) for x in s['steps']]
        s['cfg'].update(plot=0.)
        # at least as many steps as it takes to be killed
        s['cfg']['end'] = float(max(s['cfg']['end'], s['cfg']['hi'] * 8))
        for b in ('flow', 'sea', 'waves'):
            while s['cfg'][b]['t'][-1] < s['cfg']['end'] + s['cfg']['hi']:
                for k in s['cfg'][b]:
                    s['cfg'][b][k].append(s['cfg'][b][k][-1] + 600. if k == 't' else s['cfg'][b][k][-1])
        asks1 = pre['out'] != '' and True
        ow = bool(rng.random() < .3)
        asked_ = 0 if ow else (1 if pre['out'] else 0) + (1 if pre['ts'] else 0)
        out.append(dict(s, op='outmain', pre=pre, ow=ow, answers=ans, end=end, after=int(rng.integers(0, 6)), asked=asked_, limit=60))
    return out


def clis(rng, n):
    out = []
    for k in range(n):
        s = corerun.straight(rng, 2)
        s['config']['Time'].update(MorDtMin=30., MorDtMax=60., HydDt=30.)
        s['config']['OutputOptions'].update(OutInt=30., TsOutInt=30.)
        pre = dict(out=str(rng.choice(PRE[1:])), ts=str(rng.choice(PRE[1:])))
        ow = [0, 1, 2, 0][k % 4]
        ans = [str(rng.choice(WORDS[:5] if rng.random() < .6 else WORDS[5:])) for _ in range(2)] + ['n']
        out.append(dict(op='outcli', pre=pre, ow=ow, answers=ans, end='runs', limit=120, **s))
    return out


def hot(rng, n):
    out = []
    for _ in range(n):
        dx = float(rng.choice([5., 10., 20., 2.5]))
        h = header(rng, dx=dx)
        h['start'] = float(60 * round(h['start'] / 60))
        recs, t = [], h['start']
        for _ in range(int(rng.integers(1, 7))):
            recs.append(snapshot(rng, h, t, hot=True))
            t = t + float(rng.choice([15, 60, 900, 3600])) * float(rng.integers(1, 4))
        ts = [r['t'] for r in recs]
        r = rng.random()
        if len(ts) > 1 and r < .2:
            k = int(rng.integers(0, len(ts) - 1))
            at = (ts[k] + ts[k + 1]) / 2
        elif r < .5:
            at = float(rng.choice(ts))
        else:
            at = float(round(rng.uniform(ts[0] - 600, ts[-1] + 600)))
        at = float(np.floor(at))
        start, end = h['start'] - 7200., t + 86400.
        c = model.config(NumericalParameters=dict(Dx=dx), Time=dict(StartTime=model.quoted(h['start']), EndTime=model.quoted(t + 3600)))
        g = [start - 60, end]
        out.append(dict(op='hotload', h=h, recs=recs, at=at, start=h['start'], config=c, flow=dict(t=g, v=[5., 6.]), sea=dict(t=g, v=[0., 1.]),
                        waves=dict(t=g, period=[8., 9.], length=[70., 80.], power=[1e4, 2e4], dir=[0., 10.], hs=[1., 2.]), **{'continue': bool(rng.random() < .6)}))
    return out


def goon(rng, n, minutes):
    out = []
    for k in range(n):
        m = int(rng.integers(minutes // 2, minutes))
        s = corerun.straight(rng, m)
        lo = s['config']['Time']['MorDtMin']
        s['config']['Time']['MorDtMax'] = lo
        s['config']['OutputOptions']['OutInt'] = lo
        if k % 2:      # closes and is breached
            s['config']['PhysicalParameters'].update(Kcoef=float(10 ** rng.uniform(-.5, 1)), MinOutletWidth=float(rng.choice([3., 5.])), BarrierPermeability=.001, OT_coef=1.5e-4,
                                                     RiverWidth=40., UpstreamLength=60.)
            s['config']['NumericalParameters'].update(MaxMorChange=.3)
            s['config']['InitialConditions'].update(OutletWidth=float(rng.uniform(5, 9)), OutletBed=-.5, BarrierElev=float(rng.uniform(1., 2.)))
            s['flow'] = dict(t=[-600., 60. * (m // 3), 60. * (m // 2), 60. * m + 6000], v=[1., 1., 200., 200.])
        out.append(dict(op='goon', which=float(rng.random()), off=float(rng.choice([0, 0, 1, -1])) * float(np.floor((lo - 1) / 2)), limit=300, **s))
    return out


OUTPUT = dict(name='Output', module='MC_Output', emit=True, timeout=850, invariants=['Protected', 'Separate', 'Durable', 'Emitted', 'Reached'],
              nonvacuous=['refused', 'confirmed', 'written', 'killed'],
              cfg=lambda tier, seed: 'SPECIFICATION Spec\nCONSTANTS Depth = %d Emit = %d\nINVARIANTS Protected Separate Durable Emitted Reached\nCHECK_DEADLOCK FALSE\n'
              % (q(tier, 4, 5), q(tier, 3, 11)))
MC = dict(Output=OUTPUT)
SUITES = dict(
    outseq=dict(gen=lambda r, t, em: em_output(r, em, t) + long_sequences(r, q(t, 150, 2000)), module='TrOutput'),
    outmain=dict(gen=lambda r, t, em: mains(r, q(t, 200, 2500)) + clis(r, q(t, 16, 120)), module='TrOutput'),
    hotload=dict(gen=lambda r, t, em: hot(r, q(t, 150, 2500)), module='TrOutput'),
    goon=dict(gen=lambda r, t, em: goon(r, q(t, 32, 320), q(t, 24, 60)), module='TrOutput'),
)
PROPS = dict(
    O01=dict(slug='snapshot-fidelity', mc=['Output'], suites=['outseq', 'outmain']),
    O02=dict(slug='output-file-protection', mc=['Output'], suites=['outseq', 'outmain']),
    O03=dict(slug='hot-start', mc=['Output'], suites=['outseq', 'hotload', 'goon']),
)
