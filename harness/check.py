"""Decide one property:  check.py <property> [quick|thorough]   or   check.py --replay FILE"""
import collections, json, os, shutil, sys, tempfile, time, zlib
import numpy as np
import runner, tlc
from tlc import VERIF


def norm(clause):
    """clause names are <property with _>_<Clause>"""
    i = len(clause) - 1
    parts = clause.split('_')
    k = next((j for j, w in enumerate(parts) if w[:1].isupper()), len(parts))
    return '-'.join(parts[:k])


def slim(x, n=14):
    if isinstance(x, list):
        y = [slim(v, n) for v in x[:n]]
        return y + ['... %d in all' % len(x)] if len(x) > n else y
    if isinstance(x, dict):
        return {k: slim(v, n) for k, v in x.items()}
    if isinstance(x, float) and x != x:
        return 'NaN'
    if isinstance(x, float):
        return float('%.6g' % x)
    return x


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    import props
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    cfg = props.PROPS[prop]
    prop = cfg['id']
    t0 = time.time()
    tlc.build()
    os.makedirs(os.path.join(VERIF, 'work'), exist_ok=True)
    wd = tempfile.mkdtemp(prefix=prop + '.', dir=os.path.join(VERIF, 'work'))
    try:
        return decide(prop, tier, seed, cfg, wd, t0, props)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def decide(prop, tier, seed, cfg, wd, t0, props):
    states = transitions = traces = 0
    cover = collections.OrderedDict()
    errors, fails, knowns, samples = [], [], [], []
    emitted = {}
    # 1. the specification itself, exhaustively within small constants
    runs = []
    for m in cfg.get('mc', []):
        m = props.MC[m]
        runs.append((m, tlc.Run(m['module'], m['cfg'](tier, seed), wd, workers=4, heap='4g')))
    for m, r in runs:
        r.wait(m.get('timeout', 800))
        if m.get('leaves'):      # leaf states are checked as they are generated, and not stored
            r.distinct = r.states
        states += r.distinct
        transitions += max(0, r.states - 1)
        cover['spec_' + m['name']] = dict(distinct_states=r.distinct, states_generated=r.states,
                                          invariants=m['invariants'], wall_s=round(r.wall, 1))
        if not r.ok:
            errors.append('specification %s: %s' % (m['name'], r.tail))
        if m.get('nonvacuous'):
            got = {s if isinstance(s, str) else json.dumps(s) for s in r.says.get('SEEN', [])}
            miss = set(m['nonvacuous']) - got
            if miss:
                errors.append('specification %s never reached: %s' % (m['name'], sorted(miss)))
        if m.get('emit'):
            emitted[m['name']] = r.says.get('SCN', [])
            cover['spec_' + m['name']]['behaviours_emitted'] = len(emitted[m['name']])
        r.cleanup()
    if errors:
        sys.stderr.write('\n'.join(errors) + '\n')
        return 2
    # 2. scenarios through the real code, events through the trace specifications
    for st in cfg['suites']:
        suite = props.SUITES[st]
        rng = np.random.default_rng([seed, zlib.crc32(st.encode())])
        scns = suite['gen'](rng, tier, emitted)
        sw = os.path.join(wd, st)
        os.makedirs(sw)
        ev = runner.execute(scns, sw, deadline=suite.get('deadline', 300 if tier == 'quick' else 700))
        parts = suite['split'](ev) if 'split' in suite else [(suite['module'], ev)]
        cov = cover['suite_' + st] = dict(traces=0, spec=[m for m, _ in parts], operations=collections.Counter(), situations={},
                                          raised=dict(collections.Counter(e['exc'] for e in ev if 'exc' in e)))
        for module, pev in parts:
            v = runner.validate(pev, module, sw)
            states += v.states
            transitions += v.transitions
            traces += len(pev)
            cov['traces'] += len(pev)
            cov['operations'].update(e['op'] for e in pev)
            for t, k in v.tags.items():
                cov['situations'][t] = cov['situations'].get(t, 0) + k
            errors += v.errors
            for f in v.infos:
                if norm(f.get('known', '')) == cfg['slug']:
                    knowns.append((pev[f['id']], f['known']))
            for e, c, info in v.fails:
                if c == '*' or norm(c) == cfg['slug'] or suite.get('all'):
                    fails.append((e, c, info, module))
        if ev and len(samples) < 3:
            samples.append(slim({k: x for k, x in ev[len(ev) // 2].items() if k != 'p'}))
    # 3. verdict
    known = [k for k in load_known() if k.get('property') == prop and k.get('kind') == 'finding']
    hit = {}
    for e, key in knowns:
        k = next((k for k in known if k['clause'] == key), None)
        if k is None:
            fails.append((e, key, 'not a listed finding', None))
        else:
            hit.setdefault(key, k)
    for key, k in hit.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rc = 0
    if fails:
        rc = 1
        rd = os.path.join(VERIF, 'replay', prop)
        os.makedirs(rd, exist_ok=True)
        seen = {}
        for e, c, info, mod in fails:
            if c in seen:
                seen[c] += 1
                continue
            seen[c] = 1
            p = os.path.join(rd, '%s.json' % c.replace('*', 'undefined'))
            json.dump(dict(property=prop, clause=c, info=info, module=mod, event=e), open(p, 'w'))
            print('VIOLATION property=%s replay=%s' % (prop, p))
            print('  clause %s: %s %s' % (c, e['op'], (e.get('exc', '') + ' ' + e.get('msg', '')).strip()))
        print('  %s' % dict(seen))
    elif errors:
        sys.stderr.write('\n'.join(errors) + '\n')
        return 2
    cover.update(states=states, transitions=transitions, traces_validated_against_impl=traces, samples=samples)
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed,
              level='model_checking', coverage=cover, wall_s=round(time.time() - t0, 2), violations=len(fails),
              assumptions=cfg.get('assumptions', props.ASSUMPTIONS))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
    json.dump(ev, open(tmp, 'w'), indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    print('%s %s: %s, %d states, %d traces, %.1f s' % (prop, tier, 'VIOLATED' if rc else 'held', states, traces, time.time() - t0))
    return rc


def replay(path):
    r = json.load(open(path))
    tlc.build()
    os.makedirs(os.path.join(VERIF, 'work'), exist_ok=True)
    wd = tempfile.mkdtemp(dir=os.path.join(VERIF, 'work'))
    try:
        e = r['event']
        scn = {k: v for k, v in e.items() if k not in ('out', 'mut', 'exc', 'msg', 'id')}
        ev = runner.execute([scn], wd)
        v = runner.validate(ev, r['module'], wd)
        print('recorded clause:', r['clause'])
        print('event now:', json.dumps({k: x for k, x in ev[0].items() if k in ('out', 'exc', 'msg')})[:4000])
        print('clauses broken now:', sorted(c for _, c, _ in v.fails))
        return 1 if v.fails else 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
