"""Scenarios for what the model tells while it runs."""
import chan, corerun, hyd, morph


def q(tier, a, b):
    return a if tier == 'quick' else b


def hear(scns, **kw):
    return [dict(s, what=s['op'], op='hear', **kw) for s in scns]


def morphs(rng, n):
    out = morph.rates(rng, n) + morph.adapt(rng, n) + morph.mouth(rng, n) + morph.conflict(rng, n) + morph.breach(rng, n)
    for s in out:
        # change beyond the limit, though the step is at its shortest
        if rng.random() < .15:
            s['t'] = dict(s['t'], lo=s['i']['dt'] / float(rng.choice([1, 1, 2, 4])), maxchg=float(10 ** rng.uniform(-6, -1)))
            s['t']['hi'] = max(s['t']['hi'], s['t']['lo'])
        # the lagoon about to close where the river enters it
        k = s['s']['x'].index(0.)
        if rng.random() < .1 and s['s']['y1'][k] != s['s']['y1'][k]:
            s['s']['y4'][k] = s['s']['y3'][k] - s['p']['MinOutletWidth'] * (1 + 1e-7)
            s['i']['cst'][k] = s['i']['cst'][k] + 1e-4
            s['i']['ow'][k] = 1.
    return hear(out)


def unsteadies(rng, n):
    out = []
    for s in hyd.unsteady(rng, n):
        # one step, so that its beginning is known
        s = dict(s, q=s['q'][:1], ds=s['ds'][:1], wtol=float(rng.choice([1e9, 1e9, .1, 1e-3, 1e-6])))
        s['tight'] = bool(s['expect'] == 'unsteady' and rng.random() < .6)
        if rng.random() < .4:
            # off its level, or its flow
            a, b = (float(v) for v in rng.uniform(-.4, .4, 2) * rng.integers(0, 2, 2))
            s['h0'] = [max(.2, x + a) for x in s['h0']]
            s['v0'] = [x + b for x in s['v0']]
        elif rng.random() < .2:
            s['h0'] = [x + float(rng.uniform(0, .5)) for x in s['h0']]
        out.append(s)
    return hear(out)


SUITES = dict(
    hear_stages=dict(gen=lambda r, t, em: morphs(r, q(t, 300, 3000)) + hear([s for s in hyd.steady(r, q(t, 300, 4000))]) + unsteadies(r, q(t, 300, 4000))
                     + hear(chan.assemble(r, q(t, 400, 5000))), module='TrHear'),
    hear_core=dict(gen=lambda r, t, em: hear(corerun.scripted(r, q(t, 60, 600))), module='TrHear'),
)
HEAR = ['Untouched', 'NoneUntold', 'Departs']
MC = dict(Hear=dict(name='Hear', module='MC_Hear', leaves=True, timeout=850, nonvacuous=['uneventful', 'moved', 'limited'], invariants=HEAR,
                    cfg=lambda tier, seed: 'SPECIFICATION Spec\nCONSTANTS Every = 0 Seed = %d Thin = %d\nINVARIANTS %s\nCONSTRAINT Keep\nCHECK_DEADLOCK FALSE\n' % (seed, q(tier, 499, 7), ' '.join(HEAR))))
PROPS = dict(R02=dict(slug='tells', mc=['Hear'], suites=['hear_stages', 'hear_core']))
