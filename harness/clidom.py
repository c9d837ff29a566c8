"""Scenarios for the command line."""
import copy
import numpy as np
import corerun, model


def q(tier, a, b):
    return a if tier == 'quick' else b


PATHS = ['m.cnf', 'my.model.cnf', 'deep/er/x.cnf', 'a b.cnf', 'plain', 'sub/plain', 'model_log.cnf', './here.cnf']


def stem(path):
    f = path.rsplit('/', 1)[-1]
    return f.rsplit('.', 1)[0] if '.' in f[1:] else f


def two(rng):
    out = {}
    ps = rng.choice(PATHS, 2, replace=False)
    for c, p in zip('ab', ps):
        s = corerun.straight(rng, 4)
        lo = float(rng.choice([15., 20., 30.]))
        s['config']['Time'].update(MorDtMin=lo, MorDtMax=lo * float(rng.choice([1, 2, 4])), HydDt=lo, EndTime=model.quoted(lo * float(rng.integers(3, 9))))
        log = float(rng.choice([0., lo, 1.5 * lo, 2 * lo, 5 * lo, 1e5]))
        # results side by side, in the folder the simulations are started from
        s['config']['OutputOptions'].update(OutFile='o.nc', TsOutFile='t.nc', OutInt=float(rng.choice([0., 3 * lo])), TsOutInt=0., LogInt=log)
        r = rng.random()
        if r < .35:      # things worth a warning: change beyond its limit
            s['config']['NumericalParameters']['MaxMorChange'] = 1e-4
        elif r < .5:
            s['config']['NumericalParameters']['WarnTol'] = 1e-6
        out[c] = dict(path=str(p), stem=stem(str(p)), there=bool(rng.random() < .93), log=log, model=s)
        if rng.random() < .06:
            s['config']['Time']['MorDtMax'] = -5.
    return out


def run(rng, r, first):
    ow = str(rng.choice(['-o', '--Overwrite'])) if not first or rng.random() < .5 else ''
    fl = ([ow] if ow else []) + ([str(rng.choice(['-q', '--quiet']))] if r['q'] else []) + ([str(rng.choice(['-v', '--verbose']))] if r['v'] else [])
    rng.shuffle(fl)
    k = int(rng.integers(0, len(fl) + 1))
    args = [str(a) for a in fl[:k]] + ['CONFIG'] + [str(a) for a in fl[k:]]
    if len(fl) > 1 and all(len(a) == 2 for a in fl) and rng.random() < .4:
        args = ['-' + ''.join(a[1] for a in fl), 'CONFIG']
    usage = bool(rng.random() < .04)
    if usage:
        args = [['-x', 'CONFIG'], [], ['CONFIG', 'CONFIG'], ['-o']][int(rng.integers(0, 4))]
    return dict(r, ow=ow, args=args, usage=usage)


def clis(rng, em, n):
    es = list(em.get('Cli', []))
    rng.shuffle(es)
    out = []
    for k in range(n):
        rs = es[k]['runs'] if k < len(es) else [dict(c=str(rng.choice(['a', 'b'])), q=bool(rng.random() < .3), v=bool(rng.random() < .3)) for _ in range(int(rng.integers(1, 4)))]
        out.append(dict(op='cli', cfgs=two(rng), runs=[run(rng, r, i == 0) for i, r in enumerate(rs)], limit=240))
    return out


CLI = dict(name='Cli', module='MC_Cli', emit=True, timeout=850, invariants=['Sound', 'Steady', 'Emitted', 'Appends'], nonvacuous=['both', 'silent', 'again'],
           cfg=lambda tier, seed: 'SPECIFICATION Spec\nCONSTANTS Depth = %d Emit = %d\nINVARIANTS Sound Steady Emitted\nPROPERTIES Appends\nCHECK_DEADLOCK FALSE\n' % (q(tier, 2, 3), q(tier, 1, 2)))
MC = dict(Cli=CLI)
SUITES = dict(cli=dict(gen=lambda r, t, em: clis(r, em, q(t, 40, 500)), module='TrCli'))
PROPS = dict(R01=dict(slug='command-line', mc=['Cli'], suites=['cli']))
