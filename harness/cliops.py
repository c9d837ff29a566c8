"""Simulations started from the command line, one after another in one folder."""
import glob, logging, os, re, shutil, subprocess, sys
import pandas as pd
from impl import op, flo, REPO
from coreops import T0, scratch
from outops import apart, full
from hapuamod import core
import model

NAMES = dict(DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50)
HEAD = re.compile(r'(DEBUG|INFO|WARNING|ERROR|CRITICAL) *: ')
TIME = re.compile(r'Time = (\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(\.\d+)?)')
CODE = os.path.realpath(os.path.join(REPO, 'hapuamod'))


def lines(level, text):
    """a line for every line of a message"""
    return [dict(level=level, text=t) for t in text.split('\n')]


def told(cfg, ow):
    """what the model itself tells, at every level, when run in this folder; and whether it fails"""
    def body(put):
        class Ear(logging.Handler):
            def emit(self, r):
                if os.path.realpath(r.pathname).startswith(CODE):
                    put(dict(level=r.levelno, text=r.getMessage()))
        logging.disable(logging.NOTSET)
        root = logging.getLogger()
        root.setLevel(logging.DEBUG)
        root.addHandler(Ear())
        try:
            core.main(cfg, ow)
            put(dict(ended='well'))
        except BaseException as ex:
            put(dict(ended=type(ex).__name__))
    got = apart(body, 'told.json')
    end = [g['ended'] for g in got if 'ended' in g]
    return [m for g in got if 'level' in g for m in lines(g['level'], g['text'])], end[0] if end else 'died'


def parse(text):
    out, lev = [], 0
    for t in (text[:-1] if text.endswith('\n') else text).split('\n') if text else []:
        m = HEAD.match(t)
        if m:
            lev = NAMES[m.group(1)]
            t = t[m.end():]
        out.append(dict(level=lev, text=t))
    return out


def results():
    return {os.path.join(r, f): (os.stat(os.path.join(r, f)).st_mtime_ns, os.stat(os.path.join(r, f)).st_ino) for r, _, fs in os.walk('.') for f in fs if f.endswith('.nc')}


def once(d, s, x):
    cfg = s['cfgs'][x['c']]
    shutil.copytree(d, os.path.join(d, '..', 'copy'))
    os.chdir('../copy')
    mine, end = told(cfg['path'], x['ow'] != '') if not x['usage'] else ([], 'usage')
    there = os.getcwd()
    mine = [dict(m, text=m['text'].replace(there, d)) for m in mine]
    os.chdir(d)
    shutil.rmtree('../copy')
    logs = {f: open(f).read() for f in glob.glob('**/*_log.txt', recursive=True)}
    had = results()
    p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-m', 'hapuamod'] + [a if a != 'CONFIG' else cfg['path'] for a in x['args']], input='n\nn\n', text=True, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=dict(os.environ, PYTHONPATH=REPO, PYTHONHASHSEED='0'), timeout=100)
    now = {f: open(f).read() for f in glob.glob('**/*_log.txt', recursive=True)}
    has = results()
    changed = sorted(f for f in now if now[f] != logs.get(f))
    # a log that says nothing is made as well
    files = sorted(set(changed) | {f for f in now if f not in logs})
    f = cfg['stem'] + '_log.txt'
    old = logs.get(f, '')
    text = now.get(f, '')
    new = parse(text[len(old):]) if text.startswith(old) else parse(text)
    if x['usage']:
        files = files + sorted(k for k in has if has[k] != had.get(k))
    times = []
    ts = [k for k in has if k.endswith('t.nc')]
    if end == 'well' and ts and p.returncode == 0:
        times = [r['time'][0] for r in full(ts[0])][1:]
    prog = [(pd.Timestamp(m.group(1)) - T0).total_seconds() for r in new for m in [TIME.match(r['text'])] if m]
    return dict(q=x['q'], v=x['v'], usage=x['usage'], stem=cfg['stem'], failed=p.returncode != 0, fails=end != 'well', told=mine, new=new, console=[dict(text=t) for t in (p.stdout + '\n' + p.stderr).split('\n')],
                files=files, there=f in now, kept=all(now.get(k, '').startswith(v) for k, v in logs.items()), replaced=all(has[k] != had.get(k) for k in has) and len(has) == 2,
                progress=flo(prog), times=flo(times), int=float(cfg['log']))


@op
def op_cli(s):
    with scratch() as d:
        d = os.path.join(d, 'work')
        os.mkdir(d)
        os.chdir(d)
        for c in s['cfgs'].values():
            if c['there']:
                m = c['model']
                os.makedirs(os.path.dirname(c['path']) or '.', exist_ok=True)
                model.write(os.path.join(d, os.path.dirname(c['path'])), m['config'], m['flow'], m['sea'], m['waves'], name=os.path.basename(c['path']))
        return dict(out=[once(d, s, x) for x in s['runs']])
