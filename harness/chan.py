"""Scenarios for the channel properties."""
import numpy as np
import gen


def assemble(rng, n):
    out = []
    for _ in range(n):
        p = gen.params(rng)
        s = gen.state(rng, p, thin=float(rng.choice([0.0, 0.25, 0.6])))
        out.append(dict(op='assemble', s=s, p=p))
    return out


def roundtrip(rng, n):
    out = []
    for _ in range(n):
        p = gen.params(rng)
        s = gen.state(rng, p, wide=bool(rng.random() < .7))
        out.append(dict(op='roundtrip', s=s, p=p))
    return out


def chan(rng, n):
    """A combined channel laid out over n transects, and its storage."""
    x0 = int(rng.integers(1, n - 1))
    step = int(rng.choice([-1, 1]))
    room = (n - 1 - x0) if step > 0 else x0
    k = int(rng.integers(1, room + 2)) if room > 0 else 1
    k = max(1, min(k, room + 1))
    on = [x0 + step * j for j in range(k)]
    closed = bool(rng.random() < 0.4)
    nriv = int(rng.integers(1, 5))
    fl = [0] * nriv + [1] * k
    oix = []
    if not closed:
        d = int(rng.choice([-1, 1]))
        a = int(rng.integers(0, n))
        m = int(rng.integers(1, 4))
        oix = [a + d * j for j in range(m) if 0 <= a + d * j < n]
        fl += [2] * len(oix) + [3, 4]
    N = len(fl)
    return dict(on=on, oix=oix, fl=fl, closed=closed, h=[float(v) for v in rng.uniform(0.1, 3, N)],
                v=[float(v) for v in rng.uniform(-1, 2, N)])


def store(rng, n):
    out = []
    for _ in range(n):
        nt = int(rng.integers(3, 12))
        out.append(dict(op='store', c=chan(rng, nt), z3=[float(v) for v in rng.uniform(-2, 1, nt)]))
    return out


def storebed(rng, n):
    out = []
    for _ in range(n):
        nt = int(rng.integers(3, 12))
        c = chan(rng, nt)
        out.append(dict(op='storebed', c=c, n=nt, qs=[float(v) for v in rng.uniform(-1e-2, 1e-1, len(c['fl']) - 1)]))
    return out


def emitted(em, *names):
    return [dict(op='assemble', **s) for n in names for s in em.get(n, [])]


def q(tier, a, b):
    return a if tier == 'quick' else b


SUITES = dict(
    assemble=dict(gen=lambda r, t, em: emitted(em, 'Channel') + assemble(r, q(t, 700, 12000)), module='TrChannel'),
    assemble_carry=dict(gen=lambda r, t, em: assemble(r, q(t, 400, 6000)) + store(r, q(t, 150, 2000))
                        + roundtrip(r, q(t, 150, 3000)), module='TrChannel'),
    storebed=dict(gen=lambda r, t, em: storebed(r, q(t, 200, 3000)), module='TrChannel'),
)


def mc_channel(tier, seed):
    n = (2, 2) if tier == 'quick' else (3, 2)
    return ('SPECIFICATION Spec\nCONSTANTS NL = %d NR = %d Every = %d Seed = %d\n'
            'INVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (n[0], n[1], q(tier, 40, 60), seed, ' '.join(MC['Channel']['invariants'])))


MC = dict(Channel=dict(name='Channel', module='MC_Channel', cfg=mc_channel, emit=True,
                       invariants=['Contiguous', 'WideEnough', 'Counted', 'Sticky', 'Blocked', 'OpenReaches',
                                   'Shapes', 'Survives']))
PROPS = dict(
    H01=dict(slug='channel-assembly', mc=['Channel'], suites=['assemble']),
    H02=dict(slug='closure', mc=['Channel'], suites=['assemble']),
    H03=dict(slug='offline-storage', mc=['Channel'], suites=['assemble']),
    H04=dict(slug='carryover', mc=['Channel'], suites=['assemble_carry']),
)
