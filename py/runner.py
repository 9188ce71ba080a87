"""The common driver loop: replays the operations of a behaviour one by one on the real
library and records the outcome.  A driver derives from Runner and provides do_<kind>;
variants: plain; scr = as plain, and again with the caller overwriting his own
containers and the returned arrays after every call; log = as plain, and again at
log level DEBUG."""
from common import *
import logging
rf = load()
from pyRFtk import config


class Runner:
    def __init__(self, b):
        self.b, self.seed, self.variant = b, b['seed'], b['variant']
        self.ops = b['ops']
        self.kept = []
        self.objs = {}

    def g(self, op, salt=0):
        return rng(self.seed, op.get('r', 0), salt)

    def keep(self, x):
        self.kept.append(x)
        return x

    def snap(self):
        return []

    def close(self):
        pass

    def step(self, op):
        A = Args()
        ev = dict(op)
        fn = getattr(self, 'do_' + op['k'])
        n0 = getattr(config.ident, 'N', 0)
        k0 = len(getattr(config.logident, 'stack', []))
        res = None
        try:
            with quiet(), limit():
                res = fn(op, ev, A)
            ev['out'] = 'ok'
            ev['exc'] = ''
        except Exception as e:
            ev['out'] = 'exc'
            ev['exc'] = type(e).__name__
            ev['msg'] = str(e)[:160]
        ev['res'] = res if res is not None else {}
        ev['bal'] = (getattr(config.ident, 'N', 0) - n0) + 1000 * (len(getattr(config.logident, 'stack', [])) - k0)
        if ev['out'] == 'exc':
            ev['bal'] = 0
        if hasattr(config.ident, 'N'):
            config.ident.N = n0
        if hasattr(config.logident, 'stack'):
            del config.logident.stack[k0:]
        ev['mut'] = A.changed()
        if self.variant == 'scr':
            A.scribble()
            for x in self.kept:
                scribble(x)
        self.kept = []
        try:
            ev['snap'] = self.snap()
        except Exception as e:
            # what the user holds cannot even be looked at any more
            ev['snap'] = []
            ev.update(out='exc', exc='Snap' + type(e).__name__, msg=str(e)[:160])
        return ev


def reset(variant):
    if hasattr(config.ident, 'N'):
        config.ident.N = 0
    if hasattr(config._newID, 'N'):
        config._newID.N = 0
    config.setLogLevel('DEBUG' if variant == 'log' else 'CRITICAL')


def run(cls, b):
    reset(b['variant'])
    r = cls(b)
    evs = []
    try:
        for op in b['ops']:
            evs.append(r.step(op))
            if evs[-1]['out'] == 'exc' and (evs[-1]['k'] in getattr(cls, 'fatal', ()) or evs[-1]['exc'] == 'Hang' or evs[-1]['exc'][:4] == 'Snap'):
                break
    finally:
        r.close()
        config.setLogLevel('CRITICAL')
    return evs


def main(cls):
    # DEBUG records are produced in full but kept out of the file system
    config.tLogger.propagate = False
    config.tLogger.addHandler(logging.NullHandler())
    with open(sys.argv[1]) as fi, open(sys.argv[2], 'w') as fo:
        for line in fi:
            if len(HUNG) >= 2:
                break
            b = json.loads(line)
            evs = run(cls, dict(b, variant='plain'))
            if b['variant'] != 'plain':
                alt = run(cls, b)
                for k, e in enumerate(evs):
                    a = alt[k] if k < len(alt) else {}
                    e['alt'] = {x: a.get(x, '') for x in ('out', 'exc', 'res', 'snap', 'bal', 'mut')}
            fo.write(json.dumps(dict(id=b['id'], seed=b['seed'], variant=b['variant'], ev=evs)) + '\n')
