"""A stage of the model, and what it tells while it runs."""
import logging, os
from impl import op, OPS, REPO

CODE = os.path.realpath(os.path.join(REPO, 'hapuamod'))


class Ear(logging.Handler):
    def __init__(self):
        super().__init__()
        self.levels = []

    def emit(self, r):
        if os.path.realpath(r.pathname).startswith(CODE):
            self.levels.append(r.levelno)


def tight(s):
    """the fewest iterations that do, and a tolerance for warnings that so many iterations cannot keep"""
    want = OPS['unsteady'](dict(s, wtol=1e9))['out']
    for n in range(1, s['maxit'] + 1):
        try:
            if OPS['unsteady'](dict(s, wtol=1e9, maxit=n))['out'] == want:
                break
        except AssertionError:      # falls back, and has nothing to fall back on
            pass
    d = max(abs(a - b) for k in 'hv' for a, b in zip(want[k][0], s[k + '0']))
    return dict(maxit=n, wtol=d / (n * 1.05))


@op
def op_hear(s):
    more = {}
    if s.get('tight'):
        more = tight(s)
        s = dict(s, **more)
    root, ear = logging.getLogger(), Ear()
    had = root.level, logging.root.manager.disable
    root.addHandler(ear)
    root.setLevel(logging.DEBUG)
    logging.disable(logging.NOTSET)
    try:
        r = OPS[s['what']](s)
    finally:
        root.removeHandler(ear)
        root.setLevel(had[0])
        logging.disable(had[1])
    return dict(r, **more, out=dict(r['out'], warned=sum(n >= logging.WARNING for n in ear.levels), told=sum(n >= logging.INFO for n in ear.levels)))
