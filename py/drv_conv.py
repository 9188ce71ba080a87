"""Replays conversions between representations (spec/ConvGen.tla) on pyRFtk."""
from runner import *
from pyRFtk import ConvertGeneral, S_from_Z, S_from_Y, Z_from_S, Y_from_S
import pyRFtk.S_from_VI
S_from_VI = pyRFtk.S_from_VI if callable(pyRFtk.S_from_VI) else sys.modules['pyRFtk.S_from_VI'].S_from_VI


def cz(x):
    return complex(float(x[0]), float(x[1]))


class Conv(Runner):
    fatal = ('conv', 'from_S', 'to_S')

    def zmake(self, g, op, n, nf):
        """an impedance argument and the impedance of every frequency and port"""
        def one():
            v = rsig(float(np.exp(g.uniform(np.log(8), np.log(150)))))
            return complex(v, rsig(g.normal() * 25)) if op['cx'] else v
        if op['zf'] == 's':
            z = one()
            full = [[z] * n for _ in range(nf)]
            if not op['cx'] and g.random() < .2:
                z = int(z) + 1
                full = [[z] * n for _ in range(nf)]
        elif op['zf'] == 'p':
            z = [one() for _ in range(n)]
            full = [list(z) for _ in range(nf)]
        else:
            z = [[one() for _ in range(n)] for _ in range(nf)]
            full = z
        return z, [[C(v) for v in r] for r in full]

    def cont(self, x, ct):
        """as a python container or as an array"""
        if ct == 'arr':
            return np.array(x) if np.ndim(x) else x
        return x.tolist() if isinstance(x, (np.ndarray, np.generic)) else copy.deepcopy(x)

    def shaped(self, Ms, sh):
        a = np.array(Ms, dtype=complex)
        return (a[0, 0, 0] if sh == 'scalar' else a[:, 0, 0] if sh == 'list' else a[0] if sh == 'mat' else a)

    def rec(self, op, ev, res):
        o = self.objs[op['o']]
        a = np.array(res, dtype=complex)
        try:
            d3 = a.reshape(o['nf'], o['n'], o['n'])
        except ValueError:
            d3 = []
        self.keep(res)
        return dict(shape=shape(res), data=[M(m) for m in d3]), d3

    def do_new(self, op, ev, A):
        g, n, nf = self.g(op), op['n'], op['nf']

        def mat():
            X = g.normal(size=(n, n)) + 1j * g.normal(size=(n, n))
            p = op['pat']
            if op['rep'] == 'S':
                if p == 'full':
                    X = X * .8
                elif p == 'lossy':
                    X = X / np.linalg.norm(X, 2) * float(g.uniform(.3, .95))
                elif p == 'diag':
                    X = np.diag(np.diag(X)) * .5
                elif p == 'zero':
                    X = X * 0
                else:
                    X = np.eye(n)[::-1] * (.9 if g.random() < .5 else 1)
            elif op['rep'] == 'VI':
                X = np.array([[X[0, 0], X[0, 1] * 50], [X[1, 0] / 50, X[1, 1]]])
            else:
                X = (X + 1.5 * np.eye(n)) * (40. if op['rep'] == 'Z' else .02)
                if p == 'diag':
                    X = np.diag(np.diag(X))
                elif p == 'zero':
                    X = X * 0
            return np.array([[complex(rsig(v.real, 8), rsig(v.imag, 8)) for v in r] for r in X])
        d = [mat() for _ in range(nf)]
        z, ev['z'] = self.zmake(g, op, n, nf)
        ev['data'] = [M(m) for m in d]
        self.objs[op['nid']] = dict(n=n, nf=nf, sh=op['sh'], typ=op['typ'], z=z, rep=op['rep'], d=d)
        return {}

    def do_conv(self, op, ev, A):
        g, o = self.g(op), self.objs[op['o']]
        z, ev['z'] = self.zmake(g, op, o['n'], o['nf'])
        S = A('S1', self.cont(self.shaped(o['d'], o['sh']), op['ct']))
        Z1 = A('Z1', self.cont(o['z'], op['ct']))
        Z2 = A('Z2', self.cont(z, op['ct']))
        if (o['typ'], op['typ']) == ('V', 'V') and op['r'] % 2:
            res = ConvertGeneral(Z2, S, Z1)
        elif op['r'] % 3 == 0:
            res = ConvertGeneral(Z2, S, Z1, o['typ'], op['typ'])
        else:
            res = ConvertGeneral(Z2, S, Z1, type2=op['typ'], type1=o['typ'])
        r, d3 = self.rec(op, ev, res)
        self.objs[op['nid']] = dict(o, typ=op['typ'], z=z, d=[np.array(m) for m in d3])
        return r

    def do_from_S(self, op, ev, A):
        o = self.objs[op['o']]
        S = A('S', self.cont(self.shaped(o['d'], o['sh']), op['ct']))
        fn = Z_from_S if op['to'] == 'Z' else Y_from_S
        z = o['z']
        res = fn(S, z) if op['r'] % 2 else fn(S, Zbase=z)
        r, d3 = self.rec(op, ev, res)
        self.objs[op['nid']] = dict(o, rep=op['to'], d=[np.array(m) for m in d3])
        return r

    def do_to_S(self, op, ev, A):
        g, o = self.g(op), self.objs[op['o']]
        X = A('X', self.cont(self.shaped(o['d'], o['sh']), op['ct']))
        dflt = op['zb'] == 'default'
        z = (30. if o['rep'] == 'VI' else 50.) if dflt else rsig(float(g.uniform(8, 120)))
        ev['z'] = [[C(z)] * o['n'] for _ in range(o['nf'])]
        fn = {'Z': S_from_Z, 'Y': S_from_Y, 'VI': S_from_VI}[o['rep']]
        kw = 'Z0' if o['rep'] == 'VI' else 'Zbase'
        res = fn(X) if dflt else fn(X, z) if op['r'] % 2 else fn(X, **{kw: z})
        r, d3 = self.rec(op, ev, res)
        self.objs[op['nid']] = dict(o, rep='S', typ='V', z=z, d=[np.array(m) for m in d3])
        return r

    def do_bad(self, op, ev, A):
        g, n, nf = self.g(op), op['n'], op['nf']
        S = A('S', (g.normal(size=(nf, n, n)) * .3).astype(complex))
        w = op['what']
        if w == 'type1':
            ConvertGeneral(30., S, 50., 'X', 'V')
        elif w == 'type2':
            ConvertGeneral(30., S, 50., type2='S')
        elif w == 'z1len':
            ConvertGeneral(30., S, [50.] * (n + 1))
        elif w == 'z2len':
            ConvertGeneral([30.] * (n + 1), S, 50.)
        elif w == 'zshape':
            ConvertGeneral([[30.] * n] * (nf + 1), S, 50.)
        elif w == 'nonsquare':
            [ConvertGeneral, lambda a, S, b: S_from_Z(S), lambda a, S, b: Y_from_S(S)][op['r'] % 3](30., S[0][:, :-1], 50.)
        elif w == 'cube':
            [lambda S: ConvertGeneral(30., S, 50.), S_from_Y, Z_from_S][op['r'] % 3](S[:, :, :-1])
        else:
            S_from_VI(np.eye(3))
        return {}


if __name__ == '__main__':
    main(Conv)
