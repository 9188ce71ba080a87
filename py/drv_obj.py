"""Replays the lives of single RF objects (spec/ObjGen.tla) on pyRFtk."""
from runner import *
import re
from pyRFtk import rfRLC, rfArcObj, rfTRL
from pyRFtk.rfBase import rfBase
from pyRFtk.rfCoupler import rfCoupler

INF = float('inf')


def T(x):
    return 'inf' if x == INF else R(x)


class Obj(Runner):
    fatal = ('new', 'copy')

    def __init__(self, b):
        super().__init__(b)
        self.order = []

    def put(self, op, ob, info):
        self.objs[op['nid']] = (ob, info)
        self.order.append(op['nid'])

    def snap(self):
        return [[[str(p) for p in self.objs[i][0].ports], [R(x) for x in self.objs[i][0].xpos],
                 len(self.objs[i][0])] for i in self.order]

    # -- creation ---------------------------------------------------------------
    RLC = dict(Rs=(.05, 80), Ls=(3e-9, 6e-7), Cs=(3e-12, 5e-9), Rp=(3, 3000), Lp=(3e-9, 6e-7), Cp=(3e-12, 5e-9))

    def val(self, g, kind, a):
        if kind == 'rlc':
            lo, hi = self.RLC[a]
            v = rsig(float(np.exp(g.uniform(np.log(lo), np.log(hi)))))
            if g.random() < .25:
                v = {'Rs': 0., 'Ls': 0., 'Cs': INF, 'Rp': INF, 'Lp': INF, 'Cp': 0.}[a]
            elif a in ('Rs', 'Rp') and g.random() < .15:
                v = int(v) + 1
            return v
        if kind == 'arc':
            return INF if g.random() < .15 else rsig(float(np.exp(g.uniform(np.log(1e-9), np.log(6e-7)))))
        return 0. if g.random() < .08 else rsig(float(g.uniform(.01, 4)))

    def do_new(self, op, ev, A):
        g, kind = self.g(op), op['kind']
        n = dict(arc=1, cpl=4, base=int(g.integers(1, 4))).get(kind, 2)
        kw = {}
        info = dict(kind=kind, zb=50., f0=True)
        ev.update(zb='50.0', p={'-': '0.0'}, ps=[], L='0.0', tfs=[], S=[], x=['0.0'] * n)
        dfl = dict(arc=['1'], cpl=['A1', 'A2', 'B1', 'B2'], rlc=['s', 'p']).get(kind, [str(i + 1) for i in range(n)])
        ports = dfl
        if g.random() < .6:
            ports = list(g.permutation([f'q{i}' for i in range(9)])[:n])
            ports = [str(p) for p in ports]
            kw['ports'] = A('ports', list(ports))
        ev['ports'] = list(ports)
        info['ports'] = list(ports)
        if op['cx']:
            z = rsig(float(g.uniform(8, 120)))
            kw['Zbase'] = z if g.random() < .8 else int(z) + 1
            info['zb'] = float(kw['Zbase'])
            ev['zb'] = R(kw['Zbase'])
        if g.random() < .5:
            kw['Id'] = 'obj%d' % op['nid']
        if kind in ('rlc', 'arc', 'cpl', 'base') and op['cp']:
            x = [rsig(float(v)) for v in g.uniform(-2, 5, n)]
            kw['xpos'] = A('xpos', list(x))
            ev['x'] = [R(v) for v in x]
        if kind == 'rlc':
            p = {}
            for a in self.RLC:
                if g.random() < .55:
                    p[a] = self.val(g, kind, a)
            kw.update(p)
            full = dict(dict(Rs=0., Ls=0., Cs=INF, Rp=INF, Lp=INF, Cp=0.), **p)
            ev['p'] = {a: T(v) for a, v in full.items()}
            info['p'] = full
            ob = rfRLC(**kw)
        elif kind == 'arc':
            v = self.val(g, kind, 'Larc')
            info['p'] = dict(Larc=v)
            ev['p'] = dict(Larc=T(v))
            if v == INF and g.random() < .5:
                ob = rfArcObj(**kw)
            elif g.random() < .3:
                ob = rfArcObj(v, **kw)
            else:
                ob = rfArcObj(**dict(kw, Larc=v))
        elif kind == 'cpl':
            kc, f0 = float(np.sqrt(.5)), 'any'
            w = g.integers(0, 4)
            if w == 0:
                kc = kw['kc'] = rsig(float(g.uniform(.02, .99)))
            elif w == 1:
                db = rsig(float(g.uniform(.3, 30)))
                kw['kcdB'] = db if g.random() < .5 else -db
                kc = 10 ** (-db / 20)
            w = g.integers(0, 3)
            if w == 0:
                f0 = kw['f0Hz'] = rsig(float(g.uniform(2e7, 9e7)))
                f0 = R(f0)
            elif w == 1:
                kw['Lc'] = rsig(float(g.uniform(.5, 3)))
                f0 = R(299792458. / 4 / kw['Lc'])
            info['f0'] = f0 != 'any'
            ev['p'] = dict(kc=R(kc), f0=f0)
            ob = rfCoupler(**kw)
        elif kind == 'base':
            m = int(g.integers(1, 6))
            fs = [rsig(float(f)) for f in np.sort(g.uniform(1e7, 9e7, m))]
            if g.random() < .2:
                fs = [float(k) for k in range(m)]
            elif g.random() < .3:
                fs = [float(v) for v in g.permutation(fs)]
            Ss = g.normal(size=(m, n, n)) * .4 + 1j * g.normal(size=(m, n, n)) * .4
            Ss = np.array([[[complex(rsig(v.real), rsig(v.imag)) for v in r] for r in s] for s in Ss])
            ev['tfs'] = [R(f) for f in fs]
            ev['S'] = [M(s) for s in Ss]
            info['fs'] = fs
            given = Ss[0] if m == 1 and g.random() < .5 else Ss
            given = given.tolist() if g.random() < .3 else given
            kw['Ss'] = A('Ss', given)
            if fs != [float(k) for k in range(m)] or g.random() < .5:
                kw['fs'] = A('fs', np.array(fs) if g.random() < .5 else list(fs))
            ob = rfBase(**kw)
        else:
            ob = self.line(g, op, ev, A, kw, info)
        self.put(op, ob, info)
        return {}

    def line(self, g, op, ev, A, kw, info):
        kind = op['kind']
        L = self.val(g, 'line', 'L')
        if kind == 'taper' and (0 < L < .05 or g.random() < .97):
            L = max(L, .7)
        if L == 0. and g.random() < .4:
            pass                           # the default length
        else:
            kw['L'] = L
        if L == 2. or (L > .5 and g.random() < .1):
            kw['L'] = L = int(L) + 1
        info['L'] = float(L)
        ev['L'] = R(L)
        ev['x'] = ['at', '0.0']
        w = g.integers(0, 4)
        if w == 0:
            x = rsig(float(g.uniform(-2, 5)))
            kw['xpos'] = x if g.random() < .7 else int(x)
            ev['x'] = ['at', R(kw['xpos'])]
        elif w == 1:
            x = [rsig(float(v)) for v in g.uniform(-2, 5, 2)]
            kw['xpos'] = A('xpos', list(x))
            ev['x'] = ['two', R(x[0]), R(x[1])]
        byZ = g.random() < .5
        c0 = 299792458.
        base = dict(Z0TL=float(g.uniform(15, 90)))
        names = []
        if byZ:
            names = ['Z0TL']
            if g.random() < .4:
                base['vr'] = float(g.uniform(.4, 1))
                names.append('vr')
        else:
            vr = float(g.uniform(.4, 1))
            base['LTL'], base['CTL'] = base['Z0TL'] / c0 / vr, 1 / base['Z0TL'] / c0 / vr
            names = ['LTL', 'CTL']
        if g.random() < .45:
            names.append('rTL')
            base['rTL'] = float(g.uniform(.005, 6))
        if g.random() < .3:
            names.append('gTL')
            base['gTL'] = float(g.uniform(1e-6, 2e-3))
        base = {k: rsig(base[k]) for k in names}
        vary = [k for k in names if k != 'vr' and not (byZ and k == 'gTL')]
        if kind == 'taper':
            m = 1 + int(g.integers(0, len(vary)))
            vary = [str(v) for v in g.permutation(vary)[:m]]
        else:
            vary = []
        ps, shown = [], {}
        for k in [str(s) for s in g.permutation(names)]:
            b = base[k]
            if k in vary:
                form = 'ltx'[int(g.integers(0, 3))] if L else 'x'
                m = int(g.integers(2, 5))
                vs = [rsig(b * float(v)) for v in g.uniform(.6, 1.6, m)]
                if g.random() < .15:
                    vs = [b] * m             # equal values: as the constant line
                if form == 'l':
                    v, data = vs, [R(x) for x in vs]
                elif form == 't':
                    lo, hi = (-.3, 1.3) if g.random() < .5 else (.1, .8) if g.random() < .5 else (0., 1.)
                    xs = np.sort(g.uniform(lo, hi, m)) * L
                    if (lo, hi) == (0., 1.):
                        xs[0], xs[-1] = 0., L
                    xs = [float(f'{x:.6g}') for x in xs]
                    if L == 0 or min(np.diff(xs)) < .02 * L:
                        xs = [float(f'{x:.6g}') for x in np.linspace(lo, hi, m) * (L or 1.)]
                    v, data = [xs, vs], [[R(x) for x in xs], [R(x) for x in vs]]
                else:
                    sl = rsig(b * float(g.uniform(-.5, .5)) / (L or 1.))
                    data = [R(b), R(sl)]
                    v = [lambda x, b=b, s=sl: b + s * x, None][0]
                    v = [self.xfun(b, sl), self.wxfun(b, sl), self.xwfun(b, sl)][int(g.integers(0, 3))]
                if form in 'lt' and g.random() < .3:
                    v = np.array(v)
                kw[k] = v if form == 'x' else A(k, v)
                ps.append([k, form, data])
            elif k in ('rTL', 'gTL') and g.random() < .3:
                q = rsig(b / 3e8)
                # (a function of w and x makes a line that counts as varying)
                kw[k] = self.wxfun2(q) if kind == 'taper' and g.random() < .5 else self.wfun(q)
                ps.append([k, 'w', R(q)])
            else:
                w = g.integers(0, 6)
                v = b if w < 4 else A(k, [b]) if w == 4 else (lambda b=b: (lambda: b))()
                if w == 0 and b > 2 and k == 'Z0TL':
                    v = b = int(b)
                kw[k] = v
                ps.append([k, 'c', R(b)])
        ev['ps'] = ps
        w = g.integers(0, 5)
        info['fine'] = True
        if w == 0:
            kw['dx'] = int(g.integers(36, 90))
        elif w == 1:
            kw['dx'] = rsig(float(max(L, .3) / g.integers(1, 40)))
            info['fine'] = False
        elif w == 2:
            kw['dx'] = -float(max(L, .3) / int(g.integers(1, 30)))
            info['fine'] = False
        if g.random() < .15:
            kw['odeparams'] = A('odeparams', dict(rtol=1e-11, atol=1e-11))
        if kind == 'taper':
            info['fine'] = False
        return rfTRL(**kw)

    @staticmethod
    def xfun(b, s):
        return lambda x: b + s * x

    @staticmethod
    def wxfun(b, s):
        return lambda w, x: b + s * x

    @staticmethod
    def xwfun(b, s):
        return lambda x, w: b + s * x

    @staticmethod
    def wfun(q):
        return lambda w: q * w

    @staticmethod
    def wxfun2(q):
        def fn(w, x):
            return q * w
        return fn

    # -- queries ------------------------------------------------------------------
    def f1(self, g, info):
        if info['kind'] == 'base':
            return float(g.choice(info['fs'])) if g.random() < .93 else 1.2345e6
        if info['kind'] in ('rlc', 'arc') and g.random() < .2:
            return 0.
        if info['kind'] == 'cpl' and info['f0'] and g.random() < .1:
            return 0.
        if info['kind'] in ('line', 'taper') and g.random() < .08:
            return 0.
        # a few favourite frequencies (two of them nearly alike), so that earlier answers could be reused
        return [5.1e7, 1.2e7, rsig(float(g.uniform(3e6, 1.2e8))), 5.10003e7][int(g.integers(0, 4))]

    def zarg(self, g, info, how):
        if how == 'own':
            return info['zb']
        if how == 'other':
            z = rsig(float(g.uniform(8, 120)))
            return z if g.random() < .8 else int(z) + 1
        return None

    def recS(self, S, vec, ev):
        self.keep(S)
        a = np.array(S)
        if a.ndim == 2:
            Ss = [M(a)]
        elif a.ndim == 3:
            Ss = [M(s) for s in a]
        else:
            Ss = []
        return dict(shape=shape(S), arr='T' if isinstance(S, np.ndarray) else 'F', S=Ss)

    def freqs(self, g, info, fm):
        if fm == 'one':
            f = self.f1(g, info)
            return f, [f], 'one'
        if fm == 'int':
            f = int(self.f1(g, info))
            return f, [f], 'one'
        m = 1 if fm == 'single' else int(g.integers(2, 5))
        fs = [self.f1(g, info) for _ in range(m)]
        if fm == 'rev':
            fs = sorted(fs)[::-1]
        elif fm == 'rep':
            fs = fs + [fs[0]]
        a = np.array(fs) if fm == 'array' or g.random() < .3 else list(fs)
        return a, fs, fm

    def do_getS(self, op, ev, A):
        g = self.g(op)
        ob, info = self.objs[op['o']]
        arg, fs, vec = self.freqs(g, info, op['fm'])
        ev['fs'], ev['vec'] = [R(f) for f in fs], vec
        z = self.zarg(g, info, op['zb'])
        dflt = op['zb'] == 'own' and g.random() < .6
        ev['zb'] = '' if dflt else R(z)
        if vec != 'one':
            A('fs', arg)
        kw = {} if dflt else dict(Zbase=z)
        if info['kind'] in ('rlc', 'line', 'taper') and not dflt and g.random() < .4:
            S = ob.getS(arg, z)
        else:
            S = ob.getS(arg, **kw)
        return self.recS(S, vec, ev)

    def do_get1S(self, op, ev, A):
        g = self.g(op)
        ob, info = self.objs[op['o']]
        f = self.f1(g, info)
        ev['fs'], ev['vec'], ev['zb'] = [R(f)], 'one', ''
        return self.recS(ob.get1S(f), 'one', ev)

    def do_set(self, op, ev, A):
        g = self.g(op)
        ob, info = self.objs[op['o']]
        vals = {}
        for a in op['as']:
            old, vals[a] = info['L'] if a == 'L' else info['p'][a], self.val(g, info['kind'], a)
            if op['same']:
                vals[a] = old
            elif g.random() < .15 and isinstance(old, float) and 0 < old < 1e6:
                vals[a] = old * (1 + 8e-6)     # a little more than before
        ev['vals'] = [[a, T(v)] for a, v in vals.items()]
        if op['via'] == 'getS':
            f = self.f1(g, info)
            ev['fs'], ev['vec'], ev['zb'] = [R(f)], 'one', ''
            r = self.recS(ob.getS(f, params=A('params', dict(vals))), 'one', ev)
        else:
            m = ob.set(**vals)
            r = dict(mod='T' if bool(m) else 'F')
        for a, v in vals.items():
            if a == 'L':
                info['L'] = float(v)
            else:
                info['p'][a] = v
        return r

    def do_badset(self, op, ev, A):
        g = self.g(op)
        ob, info = self.objs[op['o']]
        w = op['what']
        if w == 'withgood' and op['as']:
            ob.set(**{op['as'][0]: self.val(g, info['kind'], op['as'][0]), 'nonsense': 3.})
        else:
            ob.set(**{w if w != 'withgood' else 'nonsense': 17.})
        return {}

    def do_copy(self, op, ev, A):
        ob, info = self.objs[op['o']]
        if op['how'] == 'copy':
            other = ob.copy()
        elif op['how'] == 'copycopy':
            other = copy.copy(ob)
        else:
            other = copy.deepcopy(ob)
        self.put(op, other, copy.deepcopy(info))
        return {}

    def exc(self, g, ports, partial):
        E = {}
        for p in g.permutation(ports):
            if partial and g.random() < .2:
                continue
            v = complex(rsig(g.normal()), rsig(g.normal()))
            if g.random() < .2:
                v = rsig(g.normal())
            if g.random() < .1:
                v = 0.
            E[str(p)] = v
        return E

    def prep(self, op, ev, A, partial):
        g = self.g(op)
        ob, info = self.objs[op['o']]
        f = self.f1(g, info)
        E = self.exc(g, info['ports'], partial)
        z = self.zarg(g, info, op['zb'])
        ev['f'], ev['zb'] = R(f), '' if z is None else R(z)
        ev['E'] = [[p, C(v)] for p, v in E.items()]
        ev['fine'] = bool(info.get('fine', True))
        return g, ob, info, f, A('E', E), ({} if z is None else dict(Zbase=z))

    def pick(self, xs):
        n = len(xs)
        idx = sorted(set([0, n - 1] + [int(round(k * (n - 1) / 7)) for k in range(8)])) if n > 1 else [0]
        return idx if n > 1 else [0]

    def do_maxV(self, op, ev, A):
        kind = self.objs[op['o']][1]['kind']
        g, ob, info, f, E, kw = self.prep(op, ev, A, kind in ('arc', 'cpl', 'base'))
        v, where, tree = ob.maxV(f, E, **kw)
        if kind in ('line', 'taper'):
            m = re.fullmatch(r' node: (.*) @ (-?[0-9.]+)m', where)
            xs, us = np.array(tree[0], dtype=float), np.array(tree[1], dtype=float)
            ii = self.pick(xs)
            r = dict(v=R(v), wp=m.group(1) if m else '', wx=R(float(m.group(2))) if m else 'notanumber',
                     xs=[R(xs[i]) for i in ii], A=[R(us[i]) for i in ii], V=[], top=R(np.max(us)))
            self.keep(tree[0])
            self.keep(tree[1])
        elif kind == 'rlc':
            r = dict(v=R(v), wp=where.rsplit('.', 1)[-1], A=[R(x) for x in tree[1]])
        else:
            d = next(iter(tree.values()))
            r = dict(v=R(v), wp=where, A=[R(d[p]) if p in d else 'notanumber' for p in info['ports']])
            self.keep(tree)
        return r

    def recVI(self, xs, V, I):
        for a in (xs, V, I):
            self.keep(a)
        ii = self.pick(xs)
        return dict(xs=[R(xs[i]) for i in ii], V=[C(V[i]) for i in ii], I=[C(I[i]) for i in ii])

    def do_visw(self, op, ev, A):
        g, ob, info, f, E, kw = self.prep(op, ev, A, False)
        r = ob.VISWs(f, E, **kw)
        if op['again']:
            r = ob.VISWs(f, E, **kw)
        self.keep(r[1][2])
        return self.recVI(r[0], r[1][0], r[1][1])

    def do_solveVI(self, op, ev, A):
        g = self.g(op)
        ob, info = self.objs[op['o']]
        f = self.f1(g, info)
        V0, I0 = complex(rsig(g.normal()), rsig(g.normal())), complex(rsig(g.normal() / 50), rsig(g.normal() / 50))
        ev['f'] = R(f)
        ev['V0'], ev['I0'] = C(V0 if op['what'] != 'I' else 0), C(I0 if op['what'] != 'V' else 0)
        kw = {}
        if op['what'] != 'I':
            kw['V0'] = V0
        if op['what'] != 'V':
            kw['I0'] = I0
        return self.recVI(*ob.solveVI(f, **kw))

    def do_str(self, op, ev, A):
        ob, info = self.objs[op['o']]
        how = self.g(op).integers(0, 3)
        full = bool(op['full'] and how < 2)
        t = str(ob) if how == 2 else ob.asstr(-1 if op['full'] else 0)
        kind, v = info['kind'], []
        num = r'([-+.\deinfna]+)'
        if kind == 'rlc':
            v = [[m[1], R(float(m[2]))] for m in re.finditer(r'^\|  (\w\w) = %s (?:Ohm|nH|pF) $' % num, t, re.M)]
        elif kind in ('arc', 'cpl', 'base'):
            v = [['Zbase', R(float(m[1]))] for m in re.finditer(r'@ Zbase=%s Ohm' % num, t)]
            v += [['Larc', R(float(m[1]))] for m in re.finditer(r'^\| Larc = %s \[nH\]$' % num, t, re.M)]
            v += [['kc', R(float(m[1]))] for m in re.finditer(r'^\| \+?kc= %s;' % num, t, re.M)]
            v += [['@' + m[1], R(float(m[2]))] for m in re.finditer(r"^\| '(\S+)' +@ +%sm $" % num, t, re.M)]
            v += [['nf', R(float(m[1]))] for m in re.finditer(r'^\| (\d+) frequencies from', t, re.M)]
        else:
            v = [['Zbase', R(float(m[1]))] for m in re.finditer(r'^\| Zbase: %s Ohm' % num, t, re.M)]
            v += [['length', R(float(m[1]))] for m in re.finditer(r'^\| length: %sm;' % num, t, re.M)]
            m = re.search(r'^\| ports: (.*) $', t, re.M)
            v += [['@' + p, '0.0'] for p in re.findall(r"'([^']*)'", m[1] if m else '')]
        return dict(full=full, vals=[x for x in v if x[1] not in ('inf', 'nan')], inf=[x[0] for x in v if x[1] == 'inf'])

    def do_badnew(self, op, ev, A):
        w = op['what']
        if w == 'kc':
            rfCoupler(kc=.5, kcdB=6.)
        elif w == 'Lc':
            rfCoupler(Lc=1.5, f0Hz=5e7)
        elif w == 'cplports':
            rfCoupler(ports=A('ports', ['a', 'b', 'c']))
        elif w == 'trlxpos':
            rfTRL(L=1., Z0TL=30., xpos=A('xpos', [0., 1., 2.]))
        elif w == 'trlkw':
            rfTRL(L=1., Z0TL=30., Zoo=3.)
        elif w == 'basefs':
            rfBase(Ss=A('Ss', np.zeros((2, 2, 2), dtype=complex)), fs=A('fs', [1e6]))
        elif w == 'baseports':
            rfBase(Ss=A('Ss', np.zeros((1, 2, 2), dtype=complex)), ports=A('ports', ['a']))
        else:
            rfBase(Ss=np.zeros((1, 2, 2), dtype=complex), fs=[1e6]).getS(2e6)
        return {}


if __name__ == '__main__':
    main(Obj)
