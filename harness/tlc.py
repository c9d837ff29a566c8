"""Running TLC (with the Real64 arithmetic module) and reading what it says."""
import glob, json, os, re, subprocess, shutil, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
CLASSES = os.path.join(VERIF, 'build', 'classes')
SPEC = os.path.join(VERIF, 'spec')


def build():
    src = sorted(glob.glob(os.path.join(VERIF, 'java', 'hapua', '*.java')))
    stamp = os.path.join(CLASSES, 'hapua', 'Real64.class')
    if os.path.exists(stamp) and all(os.path.getmtime(stamp) >= os.path.getmtime(f) for f in src):
        return
    os.makedirs(CLASSES, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=os.path.join(VERIF, 'build'))
    subprocess.check_call(['javac', '-nowarn', '-cp', JAR, '-d', tmp] + src)
    os.makedirs(os.path.join(CLASSES, 'hapua'), exist_ok=True)
    for f in glob.glob(os.path.join(tmp, 'hapua', '*.class')):
        os.replace(f, os.path.join(CLASSES, 'hapua', os.path.basename(f)))
    shutil.rmtree(tmp)


class Run:
    """One TLC process."""
    def __init__(self, module, cfg, workdir, workers=1, name=None, heap='2g', extra=()):
        self.module, self.cfg = module, cfg
        self.dir = tempfile.mkdtemp(prefix=(name or module) + '.', dir=workdir)
        with open(os.path.join(self.dir, 'M.cfg'), 'w') as f:
            f.write(cfg)
        self.log = os.path.join(self.dir, 'out.txt')
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m',
               '-Djava.io.tmpdir=' + self.dir, '-DTLA-Library=' + SPEC, '-Dtlc2.overrides.TLCOverrides=hapua.Real64',
               '-cp', JAR + ':' + CM + ':' + CLASSES, 'tlc2.TLC',
               '-metadir', os.path.join(self.dir, 'meta'), '-noGenerateSpecTE', '-deadlock',
               '-workers', str(workers), '-config', os.path.join(self.dir, 'M.cfg')]
        cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
        self.t0 = time.time()
        self.out = open(self.log, 'w')
        self.p = subprocess.Popen(cmd, stdout=self.out, stderr=subprocess.STDOUT, cwd=self.dir)

    def wait(self, timeout=800):
        try:
            self.rc = self.p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.rc = -9
        self.out.close()
        self.wall = time.time() - self.t0
        self.says, self.text = {}, []
        self.states = self.distinct = 0
        with open(self.log, errors='replace') as f:
            for line in f:
                if line.startswith('@@'):
                    tag, _, js = line[2:].partition(' ')
                    self.says.setdefault(tag, []).append(json.loads(js))
                else:
                    self.text.append(line.rstrip('\n'))
                    m = re.match(r'(\d+) states generated, (\d+) distinct states found', line)
                    if m:
                        self.states, self.distinct = int(m.group(1)), int(m.group(2))
        t = '\n'.join(self.text)
        self.ok = 'Model checking completed. No error has been found' in t
        self.invariant = re.findall(r'(?:Invariant|Action property|Temporal properties) ?(\S*) ?(?:is|were) violated', t)
        self.tail = t[-3000:]
        return self

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)
