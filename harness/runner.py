"""Scenario execution on the real code, and trace validation with TLC."""
import json, os, shutil, subprocess, sys, tempfile, time
import tlc

VERIF = tlc.VERIF
HARNESS = os.path.join(VERIF, 'harness')
NPROC = int(os.environ.get('HAPUA_JOBS', '8'))


def execute(scns, workdir, deadline=400, jobs=None):
    """Run the scenarios on the code under /repo; returns the events in order."""
    jobs = jobs or NPROC
    k = max(1, min(jobs, (len(scns) + 19) // 20))
    procs = []
    for j in range(k):
        part = scns[j::k]
        fi = os.path.join(workdir, 'scn%d.json' % j)
        fo = os.path.join(workdir, 'ev%d.jsonl' % j)
        json.dump(part, open(fi, 'w'))
        env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONWARNINGS='ignore', MPLBACKEND='Agg', PYTHONHASHSEED='0')
        wd = os.path.join(workdir, 'cwd%d' % j)
        os.makedirs(wd, exist_ok=True)
        err = open(os.path.join(workdir, 'err%d.txt' % j), 'w')
        procs.append((subprocess.Popen([sys.executable, os.path.join(HARNESS, 'impl.py'), fi, fo], env=env, cwd=wd,
                                       stdout=err, stderr=err, stdin=subprocess.DEVNULL), fo, part))
    t0 = time.time()
    out = [None] * len(scns)
    for j, (p, fo, part) in enumerate(procs):
        try:
            p.wait(timeout=max(1, deadline - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        evs = []
        if os.path.exists(fo):
            for line in open(fo):
                try:
                    evs.append(json.loads(line))
                except ValueError:
                    break
        if not evs and p.returncode not in (0, -9):
            # the code under test cannot even be imported
            tail = open(os.path.join(workdir, 'err%d.txt' % j)).read()[-1500:]
            sys.stderr.write(tail + '\n')
        for i, s in enumerate(part):
            if i < len(evs):
                out[j + i * k] = evs[i]
            else:
                e = dict(s)
                e['exc'] = 'NoResult'
                e['msg'] = 'worker ended or timed out'
                out[j + i * k] = e
    return out


class Validation:
    def __init__(self):
        self.fails = []      # (event, clause)
        self.states = self.transitions = self.events = 0
        self.tags = {}
        self.infos = []
        self.errors = []


def validate(events, module, workdir, chunk=None, jobs=None, consts='', keep=None, timeout=800):
    """Check events against the trace specification `module`."""
    jobs = jobs or NPROC
    k = max(1, min(jobs, (len(events) + 59) // 60))
    if chunk:
        k = max(1, (len(events) + chunk - 1) // chunk)
    for i, e in enumerate(events):
        e['id'] = i
    # traces of some megabytes each
    k = max(k, min(len(events), sum(len(json.dumps(e)) for e in events) // 6000000 + 1))
    res = Validation()
    res.events = len(events)
    todo = [events[j::k] for j in range(k)]
    todo = [t for t in todo if t]
    pending, rounds = todo, 0
    while pending:
        rounds += 1
        runs = []
        nxt = []
        queue = list(pending)
        active = []
        while queue or active:
            while queue and len(active) < jobs:
                part = queue.pop(0)
                d = tempfile.mkdtemp(prefix='tr', dir=workdir)
                tf = os.path.join(d, 't.json')
                json.dump(part, open(tf, 'w'))
                cfg = 'SPECIFICATION Spec\nCONSTANT TraceFile = "%s"\n%s\nCHECK_DEADLOCK FALSE\n' % (tf, consts)
                active.append((tlc.Run(module, cfg, workdir), part, d))
            (r, part, d) = active.pop(0)
            r.wait(timeout)
            runs.append((r, part))
            res.states += r.distinct
            res.transitions += max(0, r.states - 1)
            byid = {e['id']: e for e in part}
            for f in r.says.get('FAIL', []):
                for c in f['clauses']:
                    res.fails.append((byid[f['id']], c, f.get('info')))
            for f in r.says.get('TAG', []):
                res.tags[f['tag']] = res.tags.get(f['tag'], 0) + 1
            for f in r.says.get('INFO', []):
                res.infos.append(f)
            if not r.ok:
                # TLC could not evaluate an event: say which one, and go on behind it
                done = len(r.says['AT']) if 'AT' in r.says else r.distinct - 1 if r.distinct else None
                if done is None or done < 0 or done >= len(part) or rounds > 40 or r.rc == -9:
                    res.errors.append(r.tail)
                else:
                    res.fails.append((part[done], '*', r.tail[max(0, r.tail.find('Error:')):][:1500]))
                    if part[done + 1:]:
                        nxt.append(part[done + 1:])
            shutil.rmtree(d, ignore_errors=True)
            r.cleanup()
        pending = nxt
    return res
