"""Replays the life of table objects (spec/TabGen.tla) on pyRFtk's rfObject."""
from runner import *
import pickle, re
from pyRFtk import rfObject
from pyRFtk.config import rcparams
UNIT = dict(HZ=1., KHZ=1e3, MHZ=1e6, GHZ=1e9)
WORDS = ['a', 'b10', 'b9', 'gen', 'Ant', 'x_1', '01', 'zz', 'B', 'left']


class Tab(Runner):
    fatal = ('new', 'copy')

    def __init__(self, b):
        super().__init__(b)
        self.fs = {}
        self.rc = copy.deepcopy(rcparams)

    def close(self):
        rcparams.clear()
        rcparams.update(self.rc)

    def do_defaults(self, op, ev, A):
        g = self.g(op)
        z = self.zother(g)
        ev['z'] = R(z)
        rcparams['Zbase'] = z
        rcparams['interp'] = op['mode']
        if op['kind'] == '3':
            rcparams['interpkws'] = dict(kind=3, fill_value='extrapolate')
        else:
            rcparams['interpkws']['kind'] = int(op['kind'])
        return {}

    def snap(self):
        r = []
        for o in sorted(self.objs):
            ob = self.objs[o]
            try:
                r.append(dict(o=o, ports=[str(p) for p in ob.ports], xpos=[R(x) for x in ob.xpos], N=int(ob.N), len=len(ob),
                              nf=len(ob.fs), zb=R(ob.Zbase)))
            except Exception as e:
                r.append(dict(o=o, err=type(e).__name__))
        return r

    def mat(self, g, n, mode=''):
        X = g.normal(size=(n, n)) + 1j * g.normal(size=(n, n))
        return np.round(X / (1 + np.linalg.norm(X, 2)) * 1.05, 6)

    def unit(self, o):
        return UNIT[self.objs[o].funit.upper()]

    def freq(self, g, o):
        """a frequency not in the table, in the units of the object"""
        while True:
            f = rsig(float(g.uniform(2e7, 8e7)), 5 if g.random() < .5 else 15) / self.unit(o)
            if all(abs(f - x) > 5e5 / self.unit(o) for x in self.fs[o]):
                return f

    def zother(self, g):
        return rsig(float(g.uniform(10, 120)), 4) if g.random() < .8 else int(g.integers(10, 100))

    def do_new(self, op, ev, A):
        g, n = self.g(op), op['n']
        kw = {}
        if op['mode'] != 'default':
            kw['interp'] = op['mode']
        if op['kind'] == 'k3only':
            kw['interpkws'] = A('interpkws', dict(kind=3))
        elif op['kind'] != 'default':
            kw['interpkws'] = A('interpkws', dict(kind=int(op['kind']), fill_value='extrapolate'))
        if op['unit'] != 'default':
            kw['funit'] = op['unit']
        if op['zb']:
            kw['Zbase'] = self.zother(g)
        names = [str(x) for x in g.permutation(WORDS)[:n]]
        if op['how'] == 'ports' or (op['how'] in ('matrix', 'tsf') and op['named']):
            kw['ports'] = A('ports', list(names)) if g.random() < .7 else tuple(names)
        if op['how'] == 'str':
            kw['ports'] = '  '.join(names)
        if op['xp'] and op['how'] != 'tsf':
            kw['xpos'] = A('xpos', [rsig(float(g.uniform(-3, 3)), 3) for _ in range(n)])
        ev.update(ports=names if 'ports' in kw or op['how'] == 'noports' else [], gxp=[R(x) for x in kw.get('xpos', [])],
                  zbase=R(kw['Zbase']) if 'Zbase' in kw else '', unitf=R(UNIT[kw.get('funit', 'Hz').upper()]), src=[])
        if op['how'] == 'noports':
            ev['ports'] = []
        args = []
        fs = []
        if op['how'] == 'matrix':
            S = self.mat(g, n)
            ev['src'] = [dict(f='0.0', S=M(S), z=[]), dict(f='1e+18', S=M(S), z=[])]
            args = [A('S', S if g.random() < .5 else S.tolist())]
        if op['how'] == 'tsf':
            fs = sorted(rsig(float(x), 6) for x in g.choice(np.arange(20, 80), size=int(g.integers(1, 6)), replace=False) + g.uniform(0, .4))
            zr = float(self.zother(g))
            u = UNIT[kw.get('funit', 'Hz').upper()]
            lines = ['! made by hand']
            own = [f'q{i}' for i in range(1, n + 1)]
            if not op['named']:
                lines += ['!PORTS ' + ', '.join(own)]
                ev['ports'] = own
            lines += [f'# MHZ S RI R {zr}']
            for f in fs:
                S = self.mat(g, n)
                z = [rsig(float(g.uniform(10, 120)), 5) for _ in range(n)] if op['zc'] else [zr] * n
                ev['src'].append(dict(f=R(f * (1e6 / u)), S=M(S), z=[R(x) for x in z]))
                W = S.T if n == 2 else S
                for r in range(n):
                    lines.append(('%r ' % f if r == 0 else '   ') + ' '.join('%r %r' % (float(x.real), float(x.imag)) for x in W[r]))
                if n == 2 and g.random() < .5:
                    lines[-2:] = [lines[-2] + lines[-1]]
                if op['zc']:
                    lines.append('! Gamma ! ' + ' '.join('0 1.5' for _ in range(n)))
                    lines.append('! Port Impedance ' + ' '.join('%r 0' % x for x in z))
            fs = [f * (1e6 / u) for f in fs]
            kw['touchstone'] = '\n'.join(lines) + '\n'
        self.objs[op['nid']] = rfObject(*args, **kw)
        self.fs[op['nid']] = list(fs)
        return {}

    def do_put(self, op, ev, A):
        g, o, n = self.g(op), op['o'], op['n']
        fs, Ss = [], []
        for i in range(op['many']):
            old = [f for f in self.fs[o] if f not in fs]
            if op['dup'] and old:
                fs.append(old[int(g.integers(0, len(old)))])
            else:
                f = self.freq(g, o)
                while any(abs(f - x) < 5e5 / self.unit(o) for x in fs):
                    f = self.freq(g, o)
                near = rsig(old[0] * (1 + 4e-6), 15) if old else f
                if g.random() < .03 and near not in self.fs[o] + fs:
                    f = near             # next to one that is there
                fs.append(f)
            Ss.append(self.mat(g, n))
        ev['ent'] = [dict(f=R(f), S=M(S)) for f, S in zip(fs, Ss)]
        kw = {}
        ev['names'] = op['names']
        if op['names']:
            ev['pn'] = [str(x) for x in g.permutation(WORDS)[:n]]
            kw['Portnames'] = A('Portnames', list(ev['pn']))
        else:
            ev['pn'] = []
        if op['many'] == 1:
            f, S = fs[0], Ss[0]
            if op['form'] == 'low' and n == 1:
                S = complex(S[0, 0])
            elif op['form'] == 'list':
                S = A('S', S.tolist())
            else:
                S = A('S', S)
        else:
            f, S = A('f', np.array(fs)), np.array(Ss)
            if op['form'] == 'low' and n == 1:
                S = A('S', S[:, 0, 0])
            elif op['form'] == 'list':
                f, S = A('f', list(fs)), A('S', S.tolist())
            else:
                S = A('S', S)
        self.objs[o].setS(f, S, **kw)
        self.fs[o] = self.fs[o] + [f for f in fs if f not in self.fs[o]]
        return {}

    def do_item(self, op, ev, A):
        g, o = self.g(op), op['o']
        ob = self.objs[o]
        k = int(g.integers(0, len(ob.fs)))
        f0 = float(ob.fs[k])
        f = f0 if op['same'] else self.freq(g, o)
        S = self.mat(g, len(ob))
        ev.update(old=R(f0), ent=[dict(f=R(f), S=M(S))])
        ob[k] = (f, A('S', S))
        self.fs[o] = [x for x in self.fs[o] if x != f0] + [f]
        return {}

    def asked(self, g, o, at):
        fs = sorted(self.fs[o])
        ob = self.objs[o]
        if not fs:      # a constant
            return rsig(float(g.uniform(2e7, 8e7)))
        if at == 'mix':
            at = ['stored', 'between', 'between'][int(g.integers(0, 3))]
        if at == 'stored' or (len(fs) < 2 and at == 'between'):
            return fs[int(g.integers(0, len(fs)))]
        if at == 'between':
            k = int(g.integers(0, len(fs) - 1))
            if g.random() < .2:     # next to a stored one
                return fs[k] + (fs[k + 1] - fs[k]) * (3e-6 if g.random() < .5 else 1 - 3e-6)
            return fs[k] + (fs[k + 1] - fs[k]) * rsig(float(g.uniform(.05, .95)), 3)
        d = (fs[-1] - fs[0]) * float(g.uniform(.05, .3)) + 1e5 / self.unit(o)
        return fs[-1] + d if g.random() < .5 else fs[0] - d

    def do_getS(self, op, ev, A):
        g, o = self.g(op), op['o']
        ob = self.objs[o]
        n = 1 if op['form'] in ('one', 'single') else int(g.integers(2, 5))
        fs = [self.asked(g, o, op['at']) for _ in range(n)]
        kw = {}
        zb = float(ob.Zbase)
        if op['zb'] == 'other':
            zb = kw['Zbase'] = self.zother(g)
        elif g.random() < .3:
            kw['Zbase'] = ob.Zbase
        ev['zq'] = R(zb)
        ask = fs
        ev['conv'] = False
        if op['u']:
            u = ['Hz', 'kHz', 'MHz', 'GHZ'][int(g.integers(0, 4))]
            kw['funit'] = u
            if UNIT[u.upper()] != self.unit(o):
                ask = [f * self.unit(o) / UNIT[u.upper()] for f in fs]
                ev['conv'] = True
        ev['fq'] = [R(f) for f in fs]
        if op['form'] == 'one':
            a = ask[0] if g.random() < .5 else np.float64(ask[0])
            r = self.keep(ob.getS(a, **kw))
            return dict(S=[M(r)], shape=shape(r))
        r = self.keep(ob.getS(A('fs', np.array(ask) if op['form'] == 'array' else list(ask)), **kw))
        return dict(S=[M(x) for x in r], shape=shape(r))

    def do_table(self, op, ev, A):
        ob = self.objs[op['o']]
        if op['via'] == 'iter':
            ent = [(f, S) for f, S in ob]
        elif op['via'] == 'item':
            ent = [ob[k] for k in range(len(ob.fs))]
        else:
            ent = list(zip(ob.fs, ob.Ss))
        if op['via'] != 'attr':
            self.keep([S for f, S in ent])
        return dict(ent=[dict(f=R(f), S=M(S)) for f, S in ent], dims=[len(ob.fs), len(ob.Ss)])

    def do_eq(self, op, ev, A):
        a, b = self.objs[op['o']], self.objs[op['p']]
        return dict(eq=bool(a == b), back=bool(b == a), ne=bool(a != b), other=bool(a == op['what']))

    def do_str(self, op, ev, A):
        t = str(self.objs[op['o']])
        if op['how'] == 'repr':
            t = repr(self.objs[op['o']]) + t[t.index('\n# '):]
        lines = t.split('\n')
        k = [i for i, ln in enumerate(lines) if ln.startswith('  Portnames=[')][0]
        ports = []
        for ln in lines[k + 1:]:
            if ln == '  ]' or ln == '  ],':
                break
            ports.append(ln.strip()[1:-2])
        return dict(ports=ports, nf=int(re.search(r'^# (\d+) frequencies', t, re.M)[1]),
                    last=[R(float(m[1])) for m in re.finditer(r'^\+ last evaluation at ([-\d_.e+]+) Hz', t, re.M)])

    def do_rep(self, op, ev, A):
        g, ob = self.g(op), self.objs[op['o']]
        n = int(g.integers(1, 4))
        X = self.mat(g, n) + 1.5 * np.eye(n)
        X = X * float(ob.Zbase) if op['rep'] == 'Z' else X / float(ob.Zbase)
        X = np.array([[complex(rsig(x.real, 4), rsig(x.imag, 4)) for x in r] for r in X])
        ev['X'] = M(X)
        a = A('X', X if op['form'] == 'array' else X.tolist())
        r = self.keep(ob.S_from_Z(a) if op['rep'] == 'Z' else ob.S_from_Y(a))
        return dict(S=[M(r)], shape=shape(r))

    def do_maxV(self, op, ev, A):
        g, o = self.g(op), op['o']
        ob = self.objs[o]
        f = self.asked(g, o, op['at'])
        kw = {}
        zb = float(ob.Zbase)
        if op['zb'] == 'other':
            zb = kw['Zbase'] = self.zother(g)
        a = [complex(rsig(g.normal(), 4), rsig(g.normal(), 4)) for _ in ob.ports]
        ev.update(fq=R(f), zq=R(zb), a=[C(x) for x in a])
        v, where, rest = ob.maxV(f, A('E', dict(zip(ob.ports, a))), ID='me', **kw)
        return dict(v=R(v), where=str(where), port=str(where).split('.', 1)[-1])

    def do_sort(self, op, ev, A):
        g, o = self.g(op), op['o']
        ob = self.objs[o]
        if op['by'] == 'default':
            ev['order'] = sorted(ob.ports)
            ob.sortports()
        else:
            p = [str(x) for x in g.permutation(ob.ports)] if len(ob.ports) else []
            ev['order'] = p[:int(g.integers(0, len(p) + 1))] if op['by'] == 'part' else p
            ob.sortports(A('order', list(ev['order'])))
        return {}

    def do_conv(self, op, ev, A):
        g, o = self.g(op), op['o']
        z = self.objs[o].Zbase if op['same'] else self.zother(g)
        ev['zn'] = R(z)
        self.objs[o].convert2newZbase(z)
        return {}

    def line(self, g, ob, A, form=None):
        """a description of a section of line: what it is, and the argument"""
        L = rsig(float(g.uniform(-1, 2)), 4)
        form = form or ['num', 'num', 'int', 'npnum', 'tuple', 'tuple', 'dict', 'dictz', 'lossy'][int(g.integers(0, 9))]
        z = rsig(float(g.uniform(15, 90)), 4)
        d = dict(L=R(L), z=R(ob.Zbase), vr='1.0', r='0.0')
        if form == 'num':
            return d, L
        if form == 'npnum':
            return d, np.float64(L)
        if form == 'int':
            L = int(g.integers(-1, 3))
            return dict(d, L=R(L)), L
        if form == 'tuple':
            return dict(d, z=R(z)), (L, z)
        kw = dict(L=L, Z0TL=z)
        d['z'] = R(z)
        if form == 'dictz':
            kw['Zbase'] = rsig(float(g.uniform(15, 90)), 4)
        if g.random() < .5:
            kw['vr'] = rsig(float(g.uniform(.5, 1)), 3)
            d['vr'] = R(kw['vr'])
        if form == 'lossy':
            kw['rTL'] = rsig(float(g.uniform(.01, 1)), 3)
            d['r'] = R(kw['rTL'])
        return d, A('dict', kw)

    def do_deembed(self, op, ev, A):
        g, o = self.g(op), op['o']
        ob = self.objs[o]
        m = min(op['m'], len(ob.ports))
        ps = [str(p) for p in g.permutation(ob.ports)[:m]]
        lines, arg = [], {}
        for p in ps:
            d, a = self.line(g, ob, A)
            lines.append(dict(d, p=p))
            arg[p] = a
        ev['lines'] = lines
        ob.deembed(A('ports', arg))
        return {}

    def do_copy(self, op, ev, A):
        ob = self.objs[op['o']]
        self.fs[op['nid']] = list(self.fs[op['o']])
        self.objs[op['nid']] = (ob.copy() if op['how'] == 'copy' else copy.copy(ob) if op['how'] == 'copycopy'
                                else copy.deepcopy(ob) if op['how'] == 'deepcopy' else pickle.loads(pickle.dumps(ob)))
        return {}

    def do_bad(self, op, ev, A):
        g, o, w = self.g(op), op['o'], op['what']
        ob = self.objs[o]
        n = len(ob.ports) or 2
        f = self.freq(g, o)
        S = self.mat(g, n)
        if w == 'shape':
            ob.setS(f, A('S', self.mat(g, n + 1)) if g.random() < .5 else self.mat(g, n + 1).tolist())
        elif w == 'square':
            X = g.normal(size=(n, n + 1))
            ob.setS(f, X if g.random() < .5 else X.tolist())
        elif w == 'count':
            ob.setS([f, f + 1.], [S] if g.random() < .5 else [S, S, S])
        elif w == 'renamed':
            ob.setS(f, S, Portnames=[f'n{i}' for i in range(n)])
        elif w == 'names':
            ob.setS(f, S, Portnames=[f'n{i}' for i in range(n + 1 - 2 * int(g.integers(0, 2)))])
        elif w == 'sortdup':
            ob.sortports([ob.ports[0], ob.ports[0]] + list(ob.ports))
        elif w == 'sortname':
            ob.sortports(list(ob.ports) + ['nobody'])
        elif w == 'deport':
            ob.deembed(A('ports', {'nobody': 1.}))
        elif w == 'deval':
            ob.deembed(A('ports', {ob.ports[-1]: ['x', None, (1., 2., 3.), [1.]][int(g.integers(0, 4))]}))
        elif w == 'deportmix':
            d = {ob.ports[0]: .5}
            d['nobody' if n == 1 or g.random() < .5 else ob.ports[-1]] = 'y'
            ob.deembed(A('ports', d))
        return {}

    def do_badnew(self, op, ev, A):
        w = op['what']
        if w == 'notsquare':
            rfObject([[0, 1, 0], [1, 0, 0]])
        elif w == 'threed':
            rfObject([[[0, 1], [1, 0]]])
        elif w == 'portcount':
            rfObject([[0, 1], [1, 0]], ports=['a'])
        elif w == 'scalar':
            rfObject(3.)
        elif w == 'tsfargs':
            rfObject([[0, 1], [1, 0]], touchstone='# MHZ S RI R 50\n1 0 0\n')
        return {}


if __name__ == '__main__':
    main(Tab)
