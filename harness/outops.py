"""Output files: sequences of operations, simulations over files that exist, hot starts."""
import builtins, copy, functools, hashlib, json, os, shutil, subprocess, sys
import netCDF4
import numpy as np
import pandas as pd
from impl import op, A, ix, flo, one, REPO
from coreops import (T0, Recorder, Script, loaded, patched, scratch, steps_of, simulate, go, at, sd, bound, plain, SHORT, MODS, KEY)
from hapuamod import core, loadmod, out
import model

STAGES = [n for m, ns in MODS.items() if m != 'out' for n in ns]


def since(var, v):
    t = netCDF4.num2date(v, var.units, only_use_cftime_datetimes=False, only_use_python_datetimes=True)
    return [(pd.Timestamp(x) - T0).total_seconds() for x in np.atleast_1d(t)]


def fp(*v):
    return hashlib.sha1(repr(v).encode()).hexdigest()[:16]


def dump(f, full=False):
    """the file as it is on disk"""
    if not os.path.exists(f):
        return dict(there=False, head='', recs=[])
    nc = netCDF4.Dataset(f)
    nc.set_auto_mask(False)
    attrs = {k: nc.getncattr(k) for k in nc.ncattrs() if k != 'ModelStartTime'}
    coords = {n: flo(nc[n][:]) for n in nc.variables if nc[n].dimensions == (n,) and n != 'time'}
    units = {n: str(getattr(nc[n], 'units', '')) for n in nc.variables}
    stamp = str(nc.getncattr('ModelStartTime'))
    n = nc.dimensions['time'].size
    vs = sorted(v for v in nc.variables if nc[v].dimensions[:1] == ('time',))
    recs = []
    for k in range(n):
        r = {v: flo(nc[v][k]) for v in vs if v != 'time'}
        r['time'] = since(nc['time'], nc['time'][k])
        recs.append(r)
    nc.close()
    d = dict(there=True, head=fp(stamp, sorted((k, str(v)) for k, v in attrs.items()), coords, units), recs=[fp(sorted(r.items())) for r in recs])
    if full:
        num = {k: float(v) for k, v in attrs.items() if not isinstance(v, str)}
        return d, dict(name=str(attrs.get('ModelName')), attrs=num, coords=coords, units=units), recs
    return d


def rows(r, n, k):
    return A(r).reshape(-1, k)


def new(kind, f, h, ow):
    if kind == 'full':
        out.newOutFile(f, h['name'], at(h['start']), A(h['x']), h['dx'], A(h['rz']), A(h['origin']), h['norm'], dict(h['phys']), ow)
    else:
        out.newTsOutFile(f, h['name'], at(h['start']), ow)


def write(kind, f, r):
    if kind == 'full':
        out.writeCurrent(f, at(r['t']), r['sea'], r['flow'], r['hs'], r['dir'], rows(r['Y'], None, 5), rows(r['Z'], None, 4), A(r['lwl']), A(r['lvl']), A(r['lbed']),
                         A(r['od']), A(r['ov']), A(r['obed']), A(r['lst']), A(r['cst']), A(r['ow']), A(r['rz']), A(r['rd']), A(r['rv']), A(r['rbed']), A(r['e']),
                         np.asarray(r['ee']), np.asarray(r['ew']), A(r['oed']), A(r['oev']), r['oebed'], r['closed'])
    else:
        out.writeTsOut(f, at(r['t']), r['sea'], r['flow'], r['hs'], r['dir'], r['wl'], r['outflow'], r['sedin'], A(r['e']), r['closed'], sd(r['dt']))


def taken(t):
    """what readTimestep returns"""
    (sea, flow, hs, d1, X, Y, Z, lwl, lvl, owl, ov, e, ew, ee, oev, oewl, dd, dv, oix, power, d2, lst, cst, closed, rz, rwl, rv, time) = t
    g = dict(sea=sea, flow=flow, hs=hs, dir=d1, x=X, lwl=lwl, lvl=lvl, owl=owl, ov=ov, e=e, ew=ew, ee=ee, oev=oev, oewl=oewl, dd=dd, dv=dv, lst=lst, cst=cst, rz=rz, rwl=rwl, rv=rv)
    g.update({'y%d' % k: Y[:, k] for k in range(5)})
    g.update({'z%d' % k: Z[:, k] for k in range(4)})
    g = {k: flo(v) for k, v in g.items()}
    tt = np.atleast_1d(np.asarray(time, dtype=object)).ravel()[0]
    g['t'] = [(pd.Timestamp(tt.year, tt.month, tt.day, tt.hour, tt.minute, tt.second, tt.microsecond) - T0).total_seconds()]
    return dict(got=g, oix=ix(oix), closed=bool(closed))


class Answers:
    """instead of somebody who answers the questions"""
    def __init__(self, answers):
        self.a, self.n = list(answers), 0

    def __call__(self, *a):
        self.n += 1
        if not self.a or self.a[0] == 'eof':
            raise EOFError('EOF when reading a line')
        return self.a.pop(0)


def asking(answers, f):
    """f() with questions answered: how many were asked, and what was raised"""
    q, save = Answers(answers), builtins.input
    builtins.input = q
    raised = ''
    try:
        f()
    except Exception as ex:
        raised = '%s %s' % (type(ex).__name__, ex)
    finally:
        builtins.input = save
    return q.n, raised


def apart(f, log):
    """f(put) in a process of its own, which ends without notice; returns what it put down before"""
    pid = os.fork()
    if pid == 0:
        try:
            with open(log, 'a') as g:
                def put(x):
                    g.write(json.dumps(x) + '\n')
                    g.flush()
                f(put)
        except BaseException as ex:
            with open(log, 'a') as g:
                g.write(json.dumps(dict(died='%s %s' % (type(ex).__name__, ex))) + '\n')
        finally:
            os._exit(9)
    os.waitpid(pid, 0)
    return [json.loads(x) for x in open(log)] if os.path.exists(log) else []


@op
def op_outseq(s):
    names = {f: '%s.nc' % f for f in s['kinds']}
    files = lambda: {f: dump(p) for f, p in names.items()}

    def do(o, put):
        r = {}
        f = o.get('f')
        if o['op'] == 'new':
            r['asked'], r['raised'] = asking([o['ans']], lambda: new(s['kinds'][f], names[f], o['h'], o['ow']))
            if r['raised'] == '':
                r['hdr'] = dump(names[f], True)[1]
        elif o['op'] == 'write':
            _, r['raised'] = asking([], lambda: write(s['kinds'][f], names[f], o['r']))
            if r['raised'] == '':
                r['rec'] = dump(names[f], True)[2][-1]
        elif o['op'] == 'read' and s['kinds'][f] == 'full':
            def read():
                d, h, recs = dump(names[f], True)
                nc = netCDF4.Dataset(names[f], mode='r')
                r['x'], r['times'] = h['coords']['transect_x'], [x['time'][0] for x in recs]
                r['near'], r['reads'] = [], []
                for t in o['at']:
                    k, c = out.closestTimeIx(nc, at(t))
                    kk = np.atleast_1d(k)
                    r['near'].append(dict(t=t, n=int(kk.size), ix=int(kk[0]), at=(pd.Timestamp(c) - T0).total_seconds()))
                    r['reads'].append(dict(taken(out.readTimestep(nc, k)), rec=recs[int(kk[0])]))
                for k in range(len(recs)):
                    r['reads'].append(dict(taken(out.readTimestep(nc, k)), rec=recs[k]))
                nc.close()
            _, r['raised'] = asking([], read)
        else:
            r['raised'] = ''
        r['files'] = files()
        put(r)
    with scratch():
        first, obs, i = files(), [], 0
        while i < len(s['ops']):
            j = i
            while j < len(s['ops']) and s['ops'][j]['op'] != 'kill':
                j += 1
            part = s['ops'][i:j]
            if part:
                got = apart(lambda put: [do(o, put) for o in part], 'log%d' % i)
                if len(got) < len(part) or 'died' in got[-1]:
                    raise RuntimeError('sequence did not finish: %s' % (got[-1:],))
                obs += got
            if j < len(s['ops']):
                obs.append(dict(raised='', files=files()))
            i = j + 1
    return dict(out=dict(first=first, obs=obs))


def before(what, f):
    """a file that is there before: nothing, something else, or results"""
    if what == 'text':
        open(f, 'w').write('not results\n')
    elif what == 'results':
        shutil.copy(model_file('full' if 'o' in os.path.basename(f)[:1] else 'ts'), f)


def model_file(kind):
    p = os.path.join(os.path.dirname(os.getcwd()), 'old_%s.nc' % kind)
    if not os.path.exists(p):
        z = lambda *s: np.zeros(s)
        if kind == 'full':
            out.newOutFile(p, 'old', T0, np.arange(3) * 7., 7., np.zeros(2), np.zeros(2), 0., model.DEFAULT['PhysicalParameters'], True)
            out.writeCurrent(p, T0, 0., 1., 1., 0., z(3, 5), z(3, 4), z(3), z(3), z(3), z(3), z(3), z(3), z(2), z(3), z(3), z(2), z(2), z(2), z(2), z(2), np.asarray(0.),
                             np.asarray(1.), z(2), z(2), 0., False)
        else:
            out.newTsOutFile(p, 'old', T0, True)
            out.writeTsOut(p, T0, 0., 1., 1., 0., 0., 0., 0., z(2), False, sd(5))
    return p


def raw(f):
    return hashlib.sha1(open(f, 'rb').read()).hexdigest() if os.path.exists(f) else ''


def full(f):
    try:
        return dump(f, True)[2] if os.path.exists(f) else []
    except Exception:
        return []


@op
def op_outmain(s):
    with scratch():
        before(s['pre']['out'], 'o.nc')
        before(s['pre']['ts'], 't.nc')
        was = raw('o.nc'), raw('t.nc')

        def body(put):
            sc = Script(s)
            L = list(loaded(s, sc.tok))
            L[23] = dict(model.DEFAULT['PhysicalParameters'], **L[23])
            rec = Recorder(sc)
            io = Recorder()
            saved = []
            for n in ('writeCurrent', 'writeTsOut'):
                def wrapped(*a, _n=n, _w=io.wrap(out, n), **k):
                    _w(*a, **k)
                    put(dict(fn=_n, a=io.log[-1]['a']))
                saved.append((n, getattr(out, n), wrapped))
            mor = core.mor.updateMorphology
            count = [0]
            loadmod.loadModel = lambda f: tuple(L)
            for n, _, w in saved:
                setattr(out, n, w)
            with patched(rec, only=STAGES):
                inner = core.mor.updateMorphology

                def step(*a, **k):
                    count[0] += 1
                    if s['end'] == 'killed' and count[0] > s['after']:
                        os._exit(9)
                    if s['end'] == 'raises' and count[0] > s['after']:
                        raise RuntimeError('scripted crash')
                    return inner(*a, **k)
                core.mor.updateMorphology = step
                asked, raised = asking(s['answers'], lambda: core.main('x.cnf', s['ow']))
            put(dict(fn='end', asked=asked, raised=raised))
        got = apart(body, 'log')
        end = [g for g in got if g.get('fn') == 'end']
        died = [g for g in got if 'died' in g]
        if died:
            raise RuntimeError(died[0]['died'])
        arg = lambda n: [g['a'] for g in got if g.get('fn') == n]
        now = raw('o.nc'), raw('t.nc')
        return dict(out=dict(asked=end[0]['asked'] if end else s['asked'], failed=bool(end[0]['raised']) if end else True, raised=end[0]['raised'] if end else 'killed',
                             kept=dict(out=now[0] == was[0], ts=now[1] == was[1]), wr=arg('writeCurrent'), ts=arg('writeTsOut'),
                             recs=full('o.nc') if now[0] != was[0] else [], tsrecs=full('t.nc') if now[1] != was[1] else []))


@op
def op_outcli(s):
    with scratch() as d:
        model.write(d, s['config'], s['flow'], s['sea'], s['waves'])
        before(s['pre']['out'], 'o.nc')
        before(s['pre']['ts'], 't.nc')
        was = raw('o.nc'), raw('t.nc')
        text = ''.join(a + '\n' for a in s['answers'] if a != 'eof')
        p = subprocess.run([sys.executable, '-B', '-m', 'hapuamod', 'm.cnf'] + (['-o'] if s['ow'] == 1 else ['--Overwrite'] if s['ow'] else []), input=text, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONPATH=REPO), timeout=100)
        now = raw('o.nc'), raw('t.nc')
        return dict(ow=bool(s['ow']), out=dict(asked=-1, failed=p.returncode != 0, raised=p.stdout[-300:] if p.returncode else '', kept=dict(out=now[0] == was[0], ts=now[1] == was[1]),
                    wr=[], ts=[], recs=full('o.nc') if now[0] != was[0] else [], tsrecs=full('t.nc') if now[1] != was[1] else []))


@op
def op_hotload(s):
    with scratch() as d:
        new('full', 'h.nc', s['h'], True)
        for r in s['recs']:
            write('full', 'h.nc', r)
        _, h, recs = dump('h.nc', True)
        c = copy.deepcopy(s['config'])
        c['HotStart'] = dict(InitialConditionsNetCDF='h.nc', HotStartTime=model.quoted(s['at']), ContinueSimulation=s['continue'])
        model.write(d, c, s['flow'], s['sea'], s['waves'])
        L = loadmod.loadModel('m.cnf')
        (X, Y, Z, rz, e, ew, ee, rwl, rv, lwl, lvl, od, ov, oed, oev, closed, tim) = L[6:23]
        o = dict(x=X, rz=rz, e=e, rwl=rwl, rv=rv, lwl=lwl, lvl=lvl, od=od, ov=ov, oed=oed, oev=oev, origin=L[4])
        o.update({'y%d' % k: Y[:, k] for k in range(5)})
        o.update({'z%d' % k: Z[:, k] for k in range(4)})
        o = {k: flo(v) for k, v in o.items()}
        o.update(ew=one(ew), ee=one(ee), norm=float(L[5]), closed=bool(closed), start=(pd.Timestamp(tim['StartTime']) - T0).total_seconds(), recs=recs, filex=h['coords']['transect_x'])
        return dict(out=o)


def first_step(s):
    a, r, u, w = s['asm']['a'], s['asm']['r'], s['uns']['a'], s['lst']['a']
    g = {k: a[k] for k in ('X', 'Y', 'Z', 'rz', 'e', 'ee', 'ew', 'closed', 'rd', 'rv')}
    g.update(h=r['h'], v=r['v'], oix=r['oix'], on=r['on'], q=u['q'], ds=u['ds'], w=[w['power'], w['period'], w['length'], w['dir'], s['run']['a']['hs']], dt=s['mor']['a']['dt'])
    return g


@op
def op_goon(s):
    with scratch():
        rec = Recorder()
        got, raised = simulate(s, rec)
        if raised:
            if raised == 'no steady profile':
                return dict(out=dict(skip=raised))
            raise RuntimeError(raised)
        start, steps, cut = steps_of(rec.log)
        ts, t = [], 0.
        for x in steps:
            ts.append(t)
            t += x['mor']['r']['dt']
        times = {r['t'] for x in steps for r in x['wr']}
        can = [k for k in range(1, len(steps)) if ts[k] in times]
        # rather after something has happened
        odd = [k for k in can if steps[k - 1]['mor']['r']['breach'] or steps[k]['asm']['a']['closed'] != steps[k - 1]['asm']['a']['closed']]
        if not can:
            return dict(out=dict(skip='no record'))
        shut = [k for k in can if steps[k - 1]['asm']['r']['closed']]
        turn = [k for k in shut if steps[k - 1]['mor']['r']['breach']]
        kinds = [p for p in (turn, shut, odd, can) if p]
        pick = kinds[int(s['which'] * 1000) % len(kinds)]
        k = pick[int(s['which'] * len(pick)) % len(pick)]
        a = dict(first_step(steps[k]), t=ts[k])
        c = copy.deepcopy(s['config'])
        c['HotStart'] = dict(InitialConditionsNetCDF='o.nc', HotStartTime=model.quoted(ts[k] + s['off']), ContinueSimulation=True)
        c['OutputOptions'].update(OutFile='o2.nc', TsOutFile='t2.nc')
        model.write(os.getcwd(), c, s['flow'], s['sea'], s['waves'], None, 'b.cnf')
        rec2 = Recorder()
        halt = [0]

        class Enough(Exception):
            pass
        real = rec2.result

        def result(name, args, r):
            x = real(name, args, r)
            if name == 'updateMorphology':
                halt[0] = 1
            return x
        rec2.result = result
        asm = core.riv.assembleChannel

        @functools.wraps(asm)
        def stop(*a_, **k_):
            if halt[0]:
                raise Enough()
            return asm(*a_, **k_)
        core.riv.assembleChannel = stop
        try:
            got2, raised2 = go(rec2, 'b.cnf')
        finally:
            core.riv.assembleChannel = asm
        if raised2 and 'Enough' not in raised2:
            raise RuntimeError(raised2)
        st2 = steps_of(rec2.log)[1]
        b = dict(first_step(st2[0]), t=(pd.Timestamp(got2['par'][2]['StartTime']) - T0).total_seconds())
        return dict(out=dict(a=a, b=b, breach=bool(steps[k - 1]['mor']['r']['breach']), turned=k in turn))
